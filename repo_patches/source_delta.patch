From 061116a884f8cde419459d7dafdb5f3bc8b2283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 01/34] fix: coordinator could drop the last queued task when
 stopped

The loop condition read empty() before closed(). A task pushed after the
first read and followed by a stop before the second one left the loop with
the task still queued, so it was never executed. Once the queue is closed
nothing can be pushed any more, so closed() has to be read first.
---
 src/library/include/util/coordinator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/util/coordinator.hpp b/src/library/include/util/coordinator.hpp
index 9301250..e594c1c 100644
--- a/src/library/include/util/coordinator.hpp
+++ b/src/library/include/util/coordinator.hpp
@@ -76,7 +76,7 @@ namespace map_matching_2::util {
         virtual void execute(task_type &&task) = 0;
 
         void _start() {
-            while (not _queue.empty() or not _queue.closed()) {
+            while (not _queue.closed() or not _queue.empty()) {
                 task_type task;
                 auto queue_op = _queue.wait_pull_front(task);
                 if (queue_op == boost::queue_op_status::success) {
-- 
2.43.0


From 461d1c57014e7298c383520575dbf0f5f69c349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 02/34] fix: attributes were lost or crashed when a memory
 mapped tag storage had to grow

---
 src/library/include/io/helper/tag_helper.hpp | 97 ++++++++------------
 1 file changed, 39 insertions(+), 58 deletions(-)

diff --git a/src/library/include/io/helper/tag_helper.hpp b/src/library/include/io/helper/tag_helper.hpp
index 41a719a..2a8c06b 100644
--- a/src/library/include/io/helper/tag_helper.hpp
+++ b/src/library/include/io/helper/tag_helper.hpp
@@ -263,69 +263,35 @@ namespace map_matching_2::io::helper {
             }
         }
 
+        // the containers returned by tags(), copy_tags(), and clone_tags() live in the current mapping of the storage,
+        // growing remaps it, so these functions must not grow, the caller retries the complete operation instead
         [[nodiscard]] tag_vector_type tags(const osmium::TagList &tag_list) {
-            const auto &_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tag_list.size());
-                for (const auto &tag : tag_list) {
-                    tags_container.emplace_back(id(tag.key(), tag.value(), false));
-                }
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _tags();
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tag_list.size());
+            for (const auto &tag : tag_list) {
+                tags_container.emplace_back(id(tag.key(), tag.value(), false));
             }
+            return tags_container;
         }
 
         template<typename TagsT>
         [[nodiscard]] tag_vector_type copy_tags(const TagsT &tags) {
-            const auto &_copy_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tags.size());
-                std::copy(std::cbegin(tags), std::cend(tags), std::back_inserter(tags_container));
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _copy_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _copy_tags();
-            }
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tags.size());
+            std::copy(std::cbegin(tags), std::cend(tags), std::back_inserter(tags_container));
+            return tags_container;
         }
 
         template<typename TagsT, typename TagHelperT>
         [[nodiscard]] tag_vector_type clone_tags(const TagsT &tags, const TagHelperT &other) {
-            const auto &_clone_tags = [&]() -> tag_vector_type {
-                tag_vector_type tags_container = _tag_storage.tags();
-                tags_container.reserve(tags.size());
-                for (const auto &tag_id : tags) {
-                    // clones tag data from other tag_storage to this tag_storage
-                    auto tag = other.tag(tag_id);
-                    tags_container.emplace_back(id(tag.first, tag.second, false));
-                }
-                return tags_container;
-            };
-
-            if constexpr (is_mmap_tag_helper<tag_helper>) {
-                return memory_mapped::retry_alloc([&]()-> tag_vector_type {
-                            return _clone_tags();
-                        }, [&](auto &ex) {
-                            handle_bad_alloc(ex);
-                        });
-            } else {
-                return _clone_tags();
+            tag_vector_type tags_container = _tag_storage.tags();
+            tags_container.reserve(tags.size());
+            for (const auto &tag_id : tags) {
+                // clones tag data from other tag_storage to this tag_storage
+                auto tag = other.tag(tag_id);
+                tags_container.emplace_back(id(tag.first, tag.second, false));
             }
+            return tags_container;
         }
 
         void set_map_tags(const std::uint64_t id, tag_vector_type &&tags, MAP_TAGS map_tag) {
@@ -348,28 +314,43 @@ namespace map_matching_2::io::helper {
         }
 
         void set_map_tags(const std::uint64_t id, const osmium::TagList &tag_list, MAP_TAGS map_tag) {
+            const auto &_set_map_tags = [&]() {
+                auto &map = get_map(map_tag);
+                map.emplace(id, tags(tag_list));
+            };
+
             if (not tag_list.empty()) {
-                set_map_tags(id, tags(tag_list), map_tag);
+                if constexpr (is_mmap_tag_helper<tag_helper>) {
+                    memory_mapped::retry_alloc([&]() {
+                                _set_map_tags();
+                            }, [&](auto &ex) {
+                                handle_bad_alloc(ex);
+                            });
+                } else {
+                    _set_map_tags();
+                }
             }
         }
 
         template<typename TagsT>
         void copy_map_tags(const std::uint64_t id, const TagsT &tags, MAP_TAGS map_tag) {
-            const auto &_copy_map_tags = [&]() {
-                if (not tags.empty()) {
+            const auto &_copy_map_tags = [&](const auto &source_tags) {
+                if (not source_tags.empty()) {
                     auto &map = get_map(map_tag);
-                    map.emplace(id, copy_tags(tags));
+                    map.emplace(id, copy_tags(source_tags));
                 }
             };
 
             if constexpr (is_mmap_tag_helper<tag_helper>) {
+                // the given tags may live in this storage, they would not survive growing
+                const std::vector<typename tag_vector_type::value_type> source_tags(std::cbegin(tags), std::cend(tags));
                 memory_mapped::retry_alloc([&]() {
-                            _copy_map_tags();
+                            _copy_map_tags(source_tags);
                         }, [&](auto &ex) {
                             handle_bad_alloc(ex);
                         });
             } else {
-                _copy_map_tags();
+                _copy_map_tags(tags);
             }
         }
 
-- 
2.43.0


From f147792d51eeacd7fbca04da0270337c22c745b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:52 +0000
Subject: [PATCH 03/34] fix: growing a memory mapped storage by a few bytes
 corrupted its free blocks

---
 .../io/memory_mapped/storage/base_storage.hpp      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/library/include/io/memory_mapped/storage/base_storage.hpp b/src/library/include/io/memory_mapped/storage/base_storage.hpp
index f9abfec..89b95ba 100644
--- a/src/library/include/io/memory_mapped/storage/base_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/base_storage.hpp
@@ -16,6 +16,7 @@
 #ifndef MAP_MATCHING_2_IO_MEMORY_MAPPED_STORAGE_BASE_STORAGE_HPP
 #define MAP_MATCHING_2_IO_MEMORY_MAPPED_STORAGE_BASE_STORAGE_HPP
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 #include <filesystem>
@@ -285,6 +286,13 @@ namespace map_matching_2::io::memory_mapped::storage {
     protected:
         mmap_type *_storage{nullptr};
 
+        // Boost.Interprocess corrupts its free blocks when a segment grows by less than a free block needs
+        constexpr static const std::size_t min_extra_size = 512;
+
+        [[nodiscard]] constexpr static std::size_t _extra_size(const std::size_t offset, const std::size_t size) {
+            return std::max(size - offset, min_extra_size);
+        }
+
 #if defined(MM2_WINDOWS)
         template<typename CreationTag>
         static void _make_sparse_file(CreationTag creation_tag, const std::string &filename, const std::size_t init) {
@@ -378,7 +386,7 @@ namespace map_matching_2::io::memory_mapped::storage {
             const std::size_t offset = this->size();
             if (size > offset) {
                 this->close();
-                mmap_type::grow(_name.c_str(), size - offset);
+                mmap_type::grow(_name.c_str(), base_type::_extra_size(offset, size));
                 open();
             }
         }
@@ -478,9 +486,9 @@ namespace map_matching_2::io::memory_mapped::storage {
                 this->close();
                 const std::string path_str = _path.string();
 #if defined(MM2_WINDOWS)
-                base_type::_grow_file(path_str, offset, size);
+                base_type::_grow_file(path_str, offset, offset + base_type::_extra_size(offset, size));
 #else
-                mmap_type::grow(path_str.c_str(), size - offset);
+                mmap_type::grow(path_str.c_str(), base_type::_extra_size(offset, size));
 #endif
                 open();
             }
-- 
2.43.0


From d55a7a1f613113a1531cc9534cb0c48c53303d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 04/34] fix: importing network files with srs transform left
 the coordinates of all nodes uninitialized

---
 src/library/include/geometry/algorithm/reproject.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/include/geometry/algorithm/reproject.hpp b/src/library/include/geometry/algorithm/reproject.hpp
index a45608a..e8d3bfb 100644
--- a/src/library/include/geometry/algorithm/reproject.hpp
+++ b/src/library/include/geometry/algorithm/reproject.hpp
@@ -33,6 +33,11 @@ namespace map_matching_2::geometry {
             if (reprojector.transform()) {
                 if constexpr (std::same_as<out_point_type, OutPoint> and std::same_as<in_point_type, InPoint>) {
                     out_point = reprojector(in_point);
+                } else if constexpr (std::same_as<out_point_type, OutPoint>) {
+                    // coordinates were read without knowing their coordinate system
+                    out_point = reprojector(in_point_type{
+                            boost::geometry::get<0>(in_point), boost::geometry::get<1>(in_point)
+                    });
                 } else {
                     static_assert(not(std::same_as<out_point_type, OutPoint> and std::same_as<in_point_type, InPoint>),
                             "reprojector not called because types mismatch.");
-- 
2.43.0


From b4630ca7e9d58faa4f8b7e8749a94eec8eb8f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 05/34] fix: edge geometry of Seattle and GIS Cup networks was
 not transformed into the srs of the network

---
 src/library/include/io/network/giscup_importer.hpp  | 5 ++++-
 src/library/include/io/network/seattle_importer.hpp | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/library/include/io/network/giscup_importer.hpp b/src/library/include/io/network/giscup_importer.hpp
index 3788ab5..a5a9be3 100644
--- a/src/library/include/io/network/giscup_importer.hpp
+++ b/src/library/include/io/network/giscup_importer.hpp
@@ -130,9 +130,12 @@ namespace map_matching_2::io::network {
                     const auto &to_node = _graph_helper.graph().get_vertex_data(
                             _graph_helper.get_vertex_descriptor_for_index(to_vertex));
 
+                    line_type edge_line;
+                    geometry::reproject_line(geometry, edge_line, _reprojector_variant);
+
                     _graph_helper.add_edge(
                             from_vertex, to_vertex, edge_data_type{
-                                    edge_id, rich_line_type{std::move(geometry)}
+                                    edge_id, rich_line_type{std::move(edge_line)}
                             });
                 }
             }
diff --git a/src/library/include/io/network/seattle_importer.hpp b/src/library/include/io/network/seattle_importer.hpp
index cc3c163..e09debf 100644
--- a/src/library/include/io/network/seattle_importer.hpp
+++ b/src/library/include/io/network/seattle_importer.hpp
@@ -80,12 +80,15 @@ namespace map_matching_2::io::network {
 
                     boost::trim(wkt_line);
 
+                    line_type input_line;
+                    boost::geometry::read_wkt(wkt_line, input_line);
+
                     line_type edge_line;
-                    boost::geometry::read_wkt(wkt_line, edge_line);
+                    geometry::reproject_line(input_line, edge_line, _reprojector_variant);
 
                     vertex_size_type from_vertex;
                     if (not _vertex_map.contains(from_node_id)) {
-                        const point_type &from_point = edge_line.front();
+                        const point_type &from_point = input_line.front();
                         from_vertex = _graph_helper.add_vertex_with_index_mapping(
                                 vertex_data_type{
                                         from_node_id, from_point, _reprojector_variant
@@ -97,7 +100,7 @@ namespace map_matching_2::io::network {
 
                     vertex_size_type to_vertex;
                     if (not _vertex_map.contains(to_node_id)) {
-                        const point_type &to_point = edge_line.back();
+                        const point_type &to_point = input_line.back();
                         to_vertex = _graph_helper.add_vertex_with_index_mapping(
                                 vertex_data_type{
                                         to_node_id, to_point, _reprojector_variant
-- 
2.43.0


From ebc4654f6dcd6c18b3c5c7ae22c0b8a286df079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 06/34] fix: network files that could not be opened or read
 completely were imported partially

---
 src/library/include/io/importer.hpp           |  5 +++++
 .../include/io/network/arc_node_importer.hpp  | 14 ++++---------
 .../include/io/network/giscup_importer.hpp    | 21 ++++++-------------
 .../include/io/network/melbourne_importer.hpp | 20 +++++-------------
 .../include/io/network/seattle_importer.hpp   |  7 ++-----
 src/library/src/io/importer.cpp               | 20 ++++++++++++++++++
 6 files changed, 42 insertions(+), 45 deletions(-)

diff --git a/src/library/include/io/importer.hpp b/src/library/include/io/importer.hpp
index 8f4c894..e9b5943 100644
--- a/src/library/include/io/importer.hpp
+++ b/src/library/include/io/importer.hpp
@@ -17,6 +17,7 @@
 #define MAP_MATCHING_2_IO_IMPORTER_HPP
 
 #include <cstdint>
+#include <fstream>
 #include <string>
 #include <vector>
 
@@ -40,6 +41,10 @@ namespace map_matching_2::io {
         }
 
     protected:
+        [[nodiscard]] static std::ifstream open_file(const std::string &filename);
+
+        static void check_read(const std::ifstream &file, const std::string &filename);
+
         [[nodiscard]] static bool is_number(const std::string &str);
 
         [[nodiscard]] static std::vector<char> parse_delimiter(const std::string &delimiter);
diff --git a/src/library/include/io/network/arc_node_importer.hpp b/src/library/include/io/network/arc_node_importer.hpp
index 23d87fa..2815f5b 100644
--- a/src/library/include/io/network/arc_node_importer.hpp
+++ b/src/library/include/io/network/arc_node_importer.hpp
@@ -62,11 +62,7 @@ namespace map_matching_2::io::network {
             const auto &filenames = this->filenames();
             for (std::size_t i = 0; i + 1 < filenames.size(); i += 2) {
                 // nodes
-                if (not std::filesystem::exists(filenames[i])) {
-                    throw std::runtime_error{std::format("file '{}' does not exist", filenames[i])};
-                }
-                std::ifstream nodes;
-                nodes.open(filenames[i]);
+                std::ifstream nodes = open_file(filenames[i]);
 
                 std::vector<std::string> parts;
 
@@ -79,13 +75,10 @@ namespace map_matching_2::io::network {
                             vertex_data_type{id++, std::move(point), _reprojector_variant});
                     _node_map.emplace_back(vertex_index);
                 }
+                check_read(nodes, filenames[i]);
 
                 // arcs
-                if (not std::filesystem::exists(filenames[i + 1])) {
-                    throw std::runtime_error{std::format("file '{}' does not exist", filenames[i + 1])};
-                }
-                std::ifstream arcs;
-                arcs.open(filenames[i + 1]);
+                std::ifstream arcs = open_file(filenames[i + 1]);
 
                 id = 0;
                 while (std::getline(arcs, line)) {
@@ -102,6 +95,7 @@ namespace map_matching_2::io::network {
                             id++, rich_line_type{line_type{node_a.point, node_b.point}}
                     });
                 }
+                check_read(arcs, filenames[i + 1]);
 
                 _node_map.clear();
             }
diff --git a/src/library/include/io/network/giscup_importer.hpp b/src/library/include/io/network/giscup_importer.hpp
index a5a9be3..740c4f1 100644
--- a/src/library/include/io/network/giscup_importer.hpp
+++ b/src/library/include/io/network/giscup_importer.hpp
@@ -59,11 +59,7 @@ namespace map_matching_2::io::network {
             const auto &filenames = this->filenames();
             for (std::size_t i = 0; i + 2 < filenames.size(); i += 3) {
                 // nodes
-                if (not std::filesystem::exists(filenames[i])) {
-                    throw std::runtime_error{std::format("file '{}' does not exist", filenames[i])};
-                }
-                std::ifstream nodes;
-                nodes.open(filenames[i]);
+                std::ifstream nodes = open_file(filenames[i]);
 
                 std::string line;
                 std::vector<std::string> parts;
@@ -81,13 +77,10 @@ namespace map_matching_2::io::network {
                             });
                     _vertex_map.emplace(node_id, vertex_index);
                 }
+                check_read(nodes, filenames[i]);
 
                 // edges
-                if (not std::filesystem::exists(filenames[i + 1])) {
-                    throw std::runtime_error{std::format("file '{}' does not exist", filenames[i + 1])};
-                }
-                std::ifstream edges;
-                edges.open(filenames[i + 1]);
+                std::ifstream edges = open_file(filenames[i + 1]);
 
                 // read
                 while (std::getline(edges, line)) {
@@ -99,13 +92,10 @@ namespace map_matching_2::io::network {
 
                     _edge_map.emplace(edge_id, std::pair{from_node_id, to_node_id});
                 }
+                check_read(edges, filenames[i + 1]);
 
                 // edge-geometry
-                if (not std::filesystem::exists(filenames[i + 2])) {
-                    throw std::runtime_error{std::format("file '{}' does not exist", filenames[i + 2])};
-                }
-                std::ifstream edge_geometry;
-                edge_geometry.open(filenames[i + 2]);
+                std::ifstream edge_geometry = open_file(filenames[i + 2]);
 
                 // read
                 while (std::getline(edge_geometry, line)) {
@@ -138,6 +128,7 @@ namespace map_matching_2::io::network {
                                     edge_id, rich_line_type{std::move(edge_line)}
                             });
                 }
+                check_read(edge_geometry, filenames[i + 2]);
             }
         }
 
diff --git a/src/library/include/io/network/melbourne_importer.hpp b/src/library/include/io/network/melbourne_importer.hpp
index b96cfb5..887b1b3 100644
--- a/src/library/include/io/network/melbourne_importer.hpp
+++ b/src/library/include/io/network/melbourne_importer.hpp
@@ -59,11 +59,7 @@ namespace map_matching_2::io::network {
             const auto &filenames = this->filenames();
             for (std::size_t i = 0; i + 2 < filenames.size(); i += 3) {
                 // vertex
-                if (not std::filesystem::exists(filenames[i])) {
-                    throw std::runtime_error{std::format("file '{}' does not exist", filenames[i])};
-                }
-                std::ifstream vertices;
-                vertices.open(filenames[i]);
+                std::ifstream vertices = open_file(filenames[i]);
 
                 std::string line;
                 std::vector<std::string> parts;
@@ -83,13 +79,10 @@ namespace map_matching_2::io::network {
                             });
                     _vertex_map.emplace(node_id, vertex_index);
                 }
+                check_read(vertices, filenames[i]);
 
                 // edges
-                if (not std::filesystem::exists(filenames[i + 1])) {
-                    throw std::runtime_error{std::format("file '{}' does not exist", filenames[i + 1])};
-                }
-                std::ifstream edges;
-                edges.open(filenames[i + 1]);
+                std::ifstream edges = open_file(filenames[i + 1]);
 
                 // skip header
                 std::getline(edges, line);
@@ -114,13 +107,10 @@ namespace map_matching_2::io::network {
                                     edge_id, rich_line_type{line_type{from_node.point, to_node.point}}
                             });
                 }
+                check_read(edges, filenames[i + 1]);
 
                 // streets
-                if (not std::filesystem::exists(filenames[i + 2])) {
-                    throw std::runtime_error{std::format("file '{}' does not exist", filenames[i + 2])};
-                }
-                std::ifstream streets;
-                streets.open(filenames[i + 2]);
+                std::ifstream streets = open_file(filenames[i + 2]);
 
                 // can be skipped, contains redundant information,
                 // but we check for the file just to be sure that the data set is complete
diff --git a/src/library/include/io/network/seattle_importer.hpp b/src/library/include/io/network/seattle_importer.hpp
index e09debf..8f8a43b 100644
--- a/src/library/include/io/network/seattle_importer.hpp
+++ b/src/library/include/io/network/seattle_importer.hpp
@@ -57,11 +57,7 @@ namespace map_matching_2::io::network {
             const auto &filenames = this->filenames();
             for (std::size_t i = 0; i < filenames.size(); ++i) {
                 // road network
-                if (not std::filesystem::exists(filenames[i])) {
-                    throw std::runtime_error{std::format("file '{}' does not exist", filenames[i])};
-                }
-                std::ifstream seattle;
-                seattle.open(filenames[i]);
+                std::ifstream seattle = open_file(filenames[i]);
 
                 std::vector<std::string> parts;
 
@@ -123,6 +119,7 @@ namespace map_matching_2::io::network {
                                 });
                     }
                 }
+                check_read(seattle, filenames[i]);
             }
         }
 
diff --git a/src/library/src/io/importer.cpp b/src/library/src/io/importer.cpp
index 01233fc..8f5842b 100644
--- a/src/library/src/io/importer.cpp
+++ b/src/library/src/io/importer.cpp
@@ -16,6 +16,9 @@
 #include "io/importer.hpp"
 
 #include <cassert>
+#include <filesystem>
+#include <format>
+#include <stdexcept>
 
 // __clang_major__ >= 19 # chrono parse not yet supported
 #if (__cplusplus >= 202002L and (defined(__GNUC__) and __GNUC__ >= 14)) or \
@@ -29,6 +32,23 @@
 
 namespace map_matching_2::io {
 
+    std::ifstream importer::open_file(const std::string &filename) {
+        if (not std::filesystem::exists(filename)) {
+            throw std::runtime_error{std::format("file '{}' does not exist", filename)};
+        }
+        std::ifstream file{filename};
+        if (not file.is_open()) {
+            throw std::runtime_error{std::format("file '{}' could not be opened", filename)};
+        }
+        return file;
+    }
+
+    void importer::check_read(const std::ifstream &file, const std::string &filename) {
+        if (file.bad()) {
+            throw std::runtime_error{std::format("file '{}' could not be read completely", filename)};
+        }
+    }
+
     [[nodiscard]] bool importer::is_number(const std::string &str) {
         if (not str.empty()) {
             for (auto it = std::cbegin(str); it != std::cend(str); ++it) {
-- 
2.43.0


From bf832512a7747d905a16cd85ab45fc21b7e987e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 07/34] fix: OSM ways without nodes were read out of bounds

---
 src/library/include/io/network/osm_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/include/io/network/osm_handler.hpp b/src/library/include/io/network/osm_handler.hpp
index a351c97..c9dd42a 100644
--- a/src/library/include/io/network/osm_handler.hpp
+++ b/src/library/include/io/network/osm_handler.hpp
@@ -66,7 +66,7 @@ namespace map_matching_2::io::network {
                     }
                 }
 
-                for (std::size_t i = 0; i < osm_nodes.size() - 1; ++i) {
+                for (std::size_t i = 0; i + 1 < osm_nodes.size(); ++i) {
                     try {
                         const auto index_from = static_cast<std::uint64_t>(osm_nodes[i].ref());
                         const auto index_to = static_cast<std::uint64_t>(osm_nodes[i + 1].ref());
-- 
2.43.0


From 01aad6a32d143176abef47f8d32cef204e61fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 08/34] fix: removing unconnected components dropped nodes that
 one-way roads lead away from

The components were searched along the direction of the edges only, so nodes of
the largest weakly connected component could be removed, depending on where the
search started; an empty network crashed.
---
 .../geometry/network/network_import.hpp       | 47 ++++++++++++-------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index bb69636..42544a5 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -126,12 +126,39 @@ namespace map_matching_2::geometry::network {
                 const auto vertex_index = this->graph().vertex_index(it);
                 if (not visited.contains(vertex_index)) {
                     auto &discovered = components.emplace_back(discovered_type{});
-                    vertex_visitor vertex_visitor{discovered};
 
-                    graph::breadth_first_search(this->graph(), it, visited, queue, vertex_visitor);
+                    // weak connection, so the direction of the edges does not matter
+                    const auto discover = [&](const vertex_descriptor &vertex_desc) {
+                        if (visited.emplace(this->graph().vertex_index(vertex_desc)).second) {
+                            discovered.emplace_back(vertex_desc);
+                            queue.push(vertex_desc);
+                        }
+                    };
+
+                    discover(it);
+                    while (not queue.empty()) {
+                        const vertex_descriptor vertex_desc = queue.front();
+                        queue.pop();
+
+                        const auto out_edges_v = this->graph().out_edges_view(vertex_desc);
+                        for (auto oe_it = out_edges_v.begin();
+                             oe_it != out_edges_v.end(); oe_it = out_edges_v.next(oe_it)) {
+                            discover(this->graph().target(out_edges_v[oe_it]));
+                        }
+
+                        const auto in_edges_v = this->graph().in_edges_view(vertex_desc);
+                        for (auto ie_it = in_edges_v.begin();
+                             ie_it != in_edges_v.end(); ie_it = in_edges_v.next(ie_it)) {
+                            discover(this->graph().source(in_edges_v[ie_it]));
+                        }
+                    }
                 }
             }
 
+            if (components.empty()) {
+                return;
+            }
+
             const auto component_comparator = [](const auto &a, const auto &b) {
                 return a.size() < b.size();
             };
@@ -440,22 +467,6 @@ namespace map_matching_2::geometry::network {
             }
         }
 
-        class vertex_visitor : public graph::visitor {
-
-        public:
-            explicit constexpr vertex_visitor(std::vector<vertex_descriptor> &discovered)
-                : _discovered{discovered} {}
-
-            template<typename Graph>
-            void discover_vertex(const Graph &graph, typename Graph::vertex_descriptor vertex_desc) {
-                _discovered.emplace_back(vertex_desc);
-            }
-
-        private:
-            std::vector<vertex_descriptor> &_discovered;
-
-        };
-
     };
 
 }
-- 
2.43.0


From abb643b9c6547ab00aed6228711a435045fc3bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 09/34] fix: removing duplicate edges used removed edges and
 copied edges within full storages

---
 src/library/include/geometry/network/edge.hpp           | 2 +-
 src/library/include/geometry/network/network_import.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/include/geometry/network/edge.hpp b/src/library/include/geometry/network/edge.hpp
index 8f07e8b..0837b25 100644
--- a/src/library/include/geometry/network/edge.hpp
+++ b/src/library/include/geometry/network/edge.hpp
@@ -143,7 +143,7 @@ namespace map_matching_2::geometry::network {
 
         friend constexpr bool operator==(const edge &left, const edge &right) {
             return left.id == right.id and
-                    static_cast<rich_line_type>(left.rich_line) == static_cast<rich_line_type>(right.rich_line);
+                    left.rich_line == right.rich_line;
         }
 
         friend constexpr bool operator!=(const edge &left, const edge &right) {
diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 42544a5..376d70e 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -282,9 +282,9 @@ namespace map_matching_2::geometry::network {
                 if (edge_set.contains(edge)) {
                     graph.remove_edge(edge_desc);
                     reindex = true;
+                } else {
+                    edge_set.emplace(edge);
                 }
-
-                edge_set.emplace(edge);
             }
 
             if (reindex) {
-- 
2.43.0


From d9627b7dc90a6b0c901c0099750731f33533263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 10/34] fix: roads were lost when a memory mapped network had
 to grow while it was simplified

---
 .../include/geometry/network/network_import.hpp    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index 376d70e..a5855ca 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -303,20 +303,20 @@ namespace map_matching_2::geometry::network {
             const vertex_descriptor target_vertex_in = graph.target(in_edge);
             const vertex_descriptor target_vertex_out = graph.target(out_edge);
 
-            edge_data_type &source_edge = graph.get_edge_data(in_edge);
-            edge_data_type &target_edge = graph.get_edge_data(out_edge);
+            const edge_data_type &source_edge = graph.get_edge_data(in_edge);
+            const edge_data_type &target_edge = graph.get_edge_data(out_edge);
 
-            // merge the edges
+            // merge copies of the edges, so that nothing is lost when the storage needs to grow in between
             this->tag_helper().merge_edge_tags(source_edge.id, target_edge.id);
-            edge_data_type new_edge = edge_data_type::merge(std::move(source_edge), std::move(target_edge));
+            edge_data_type new_edge = edge_data_type::merge(edge_data_type{source_edge}, edge_data_type{target_edge});
+
+            // add newly merged edge in place of the original edges
+            graph.add_edge(source_vertex_in, target_vertex_out, std::move(new_edge));
 
             // remove the original edges
             graph.remove_edge(in_edge);
             graph.remove_edge(out_edge);
 
-            // add newly merged edge in place of the original edges
-            graph.add_edge(source_vertex_in, target_vertex_out, std::move(new_edge));
-
             if (graph.degree(target_vertex_in) == 0) {
                 // only remove vertex if all edges were previously removed
                 graph.remove_vertex(target_vertex_in);
-- 
2.43.0


From 8b0a662f98909f8e71fd88def80a95a76e250d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 11/34] fix: removing duplicate nodes used removed edges, left
 duplicates and roads unconnected, and failed in full storages

A node that was merged into a road after its first duplicate was found could not
be connected to further duplicates, and a node that could not be merged was
forgotten, so that further duplicates of it remained.
---
 src/app/include/app/prepare.hpp               |  3 +-
 .../geometry/network/network_import.hpp       | 47 +++++++++++--------
 .../include/io/helper/graph_helper.hpp        | 26 ++++++++++
 3 files changed, 55 insertions(+), 21 deletions(-)

diff --git a/src/app/include/app/prepare.hpp b/src/app/include/app/prepare.hpp
index 6c320f2..66899df 100644
--- a/src/app/include/app/prepare.hpp
+++ b/src/app/include/app/prepare.hpp
@@ -128,7 +128,8 @@ namespace map_matching_2::app {
     void _remove_duplicate_nodes(std::unique_ptr<NetworkImport> &network_import, const prepare_data &data) {
         if (data.process.remove_duplicate_nodes) {
             verbose_frame("Remove duplicate nodes", [&]() {
-                network_import->remove_duplicate_nodes(
+                network_import->graph_helper().remove_duplicate_nodes(
+                        *network_import,
                         data.process.simplify != SIMPLIFY_NONE,
                         data.process.simplify == SIMPLIFY_ALL);
             });
diff --git a/src/library/include/geometry/network/network_import.hpp b/src/library/include/geometry/network/network_import.hpp
index a5855ca..61f42a7 100644
--- a/src/library/include/geometry/network/network_import.hpp
+++ b/src/library/include/geometry/network/network_import.hpp
@@ -206,6 +206,9 @@ namespace map_matching_2::geometry::network {
                     // duplicate node found with same coordinates
                     vertex_descriptor existing_vertex_desc = it->second;
 
+                    // remember index, because further duplicates may follow and in case of an error and restart
+                    _unified_vertices.emplace(graph.vertex_index(existing_vertex_desc));
+
                     auto in_edges_v = graph.in_edges_view(vertex_desc);
 
                     in_edge_descriptor in_edge_desc, in_edge_val;
@@ -213,11 +216,11 @@ namespace map_matching_2::geometry::network {
                     for (in_edge_val = in_edge_desc; in_edge_desc != in_edges_v.end(); in_edge_desc = in_edge_val) {
                         in_edge_val = in_edges_v.next(in_edge_val);
 
-                        const edge_descriptor &in_edge = in_edges_v[in_edge_desc];
-                        edge_data_type &edge = edges_v[in_edge].get();
+                        const edge_descriptor in_edge = in_edges_v[in_edge_desc];
                         const vertex_descriptor source_vertex = graph.source(in_edge);
 
-                        graph.add_edge(source_vertex, existing_vertex_desc, std::move(edge));
+                        // copy the edge, so that nothing is lost when the storage needs to grow in between
+                        graph.add_edge(source_vertex, existing_vertex_desc, edge_data_type{edges_v[in_edge].get()});
                         graph.remove_edge(in_edge);
                     }
 
@@ -229,39 +232,42 @@ namespace map_matching_2::geometry::network {
                          out_edge_desc = out_edge_val) {
                         out_edge_val = out_edges_v.next(out_edge_val);
 
-                        const edge_descriptor &out_edge = out_edges_v[out_edge_desc];
-                        edge_data_type &edge = edges_v[out_edge].get();
+                        const edge_descriptor out_edge = out_edges_v[out_edge_desc];
                         const vertex_descriptor target_vertex = graph.target(out_edge);
 
-                        graph.add_edge(existing_vertex_desc, target_vertex, std::move(edge));
+                        graph.add_edge(existing_vertex_desc, target_vertex, edge_data_type{edges_v[out_edge].get()});
                         graph.remove_edge(out_edge);
                     }
 
                     assert(graph.degree(vertex_desc) == 0);
                     graph.remove_vertex(vertex_desc);
+                } else {
+                    node_map.emplace(point, vertex_desc);
+                }
+            }
 
-                    if (simplify) {
-                        // check if current node can be omitted
-                        if (_is_mergeable(existing_vertex_desc, adjacent_edges)) {
-                            _populate_merges(existing_vertex_desc, merge_edges, simplify_network_complete);
-
-                            if (not merge_edges.empty()) {
-                                for (const auto &merge_edge : merge_edges) {
-                                    _merge(merge_edge.first, merge_edge.second);
-                                }
+            if (simplify) {
+                // check if the unified nodes can be omitted, only after all their duplicates were found
+                vertex_desc = vertices_v.begin();
+                for (vertex_val = vertex_desc; vertex_desc != vertices_v.end(); vertex_desc = vertex_val) {
+                    vertex_val = vertices_v.next(vertex_val);
 
-                                merge_edges.clear();
-                            }
+                    if (_unified_vertices.contains(graph.vertex_index(vertex_desc)) and
+                        _is_mergeable(vertex_desc, adjacent_edges)) {
+                        _populate_merges(vertex_desc, merge_edges, simplify_network_complete);
 
-                            node_map.erase(it);
+                        for (const auto &merge_edge : merge_edges) {
+                            _merge(merge_edge.first, merge_edge.second);
                         }
+
+                        merge_edges.clear();
                     }
-                } else {
-                    node_map.emplace(point, vertex_desc);
                 }
             }
 
             graph.reindex();
+
+            _unified_vertices.clear();
         }
 
         void remove_duplicate_edges() {
@@ -295,6 +301,7 @@ namespace map_matching_2::geometry::network {
     private:
         bool _simplify_running{false}, _simplify_vertex_set{false};
         vertex_size_type _simplify_vertex{};
+        boost::unordered_flat_set<vertex_size_type> _unified_vertices;
 
         void _merge(const edge_descriptor &in_edge, const edge_descriptor &out_edge) {
             graph_type &graph = this->graph();
diff --git a/src/library/include/io/helper/graph_helper.hpp b/src/library/include/io/helper/graph_helper.hpp
index b1fb14e..1f0ceb9 100644
--- a/src/library/include/io/helper/graph_helper.hpp
+++ b/src/library/include/io/helper/graph_helper.hpp
@@ -183,6 +183,32 @@ namespace map_matching_2::io::helper {
             }
         }
 
+        template<typename Network>
+        void remove_duplicate_nodes(Network &network, bool simplify = true,
+                bool simplify_network_complete = true) requires
+            (graph::is_adjacency_list<graph_type> and std::same_as<graph_helper, typename Network::graph_helper_type>) {
+            if (this != &network.graph_helper()) {
+                throw std::runtime_error(
+                        "remove_duplicate_nodes needs the network that contains the graph_helper it is called on");
+            }
+
+            if constexpr (is_mmap_graph_helper<graph_helper>) {
+                // first grow once for having sufficient extra space, better performance than handle_bad_alloc
+                grow();
+
+                io::memory_mapped::retry_alloc([&]() {
+                            network.remove_duplicate_nodes(simplify, simplify_network_complete);
+                        }, [&](auto &ex) {
+                            handle_bad_alloc(ex);
+                        });
+            } else if constexpr (is_memory_graph_helper<graph_helper>) {
+                network.remove_duplicate_nodes(simplify, simplify_network_complete);
+            } else {
+                static_assert(util::dependent_false_v<graph_helper>, "graph_helper type unknown");
+                throw std::runtime_error{"graph_helper type unknown"};
+            }
+        }
+
         template<typename VertexData = vertex_data_type,
             typename TagHelperT = tag_helper_type>
         vertex_descriptor add_vertex(const VertexData &vertex_data, const TagHelperT &other) requires
-- 
2.43.0


From c94aa8993047c462380fe86a4f939d70929e4778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 12/34] fix: networks that could not be saved or opened were
 silently lost or opened empty

---
 .../include/io/serialization/deserializer.hpp        |  9 ++++++---
 src/library/include/io/serialization/serializer.hpp  | 12 +++++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/library/include/io/serialization/deserializer.hpp b/src/library/include/io/serialization/deserializer.hpp
index 1276195..057c3a6 100644
--- a/src/library/include/io/serialization/deserializer.hpp
+++ b/src/library/include/io/serialization/deserializer.hpp
@@ -18,6 +18,7 @@
 
 #include <fstream>
 #include <filesystem>
+#include <stdexcept>
 
 #include <boost/archive/binary_iarchive.hpp>
 
@@ -42,10 +43,12 @@ namespace map_matching_2::io::serialization {
 
             std::ifstream file;
             file.open(path, std::ios_base::binary);
-            if (file.is_open() && file.good()) {
-                boost::archive::binary_iarchive in{file};
-                in >> _data;
+            if (not file.is_open() or not file.good()) {
+                throw std::runtime_error("file " + filename + " could not be opened.");
             }
+
+            boost::archive::binary_iarchive in{file};
+            in >> _data;
         }
 
     private:
diff --git a/src/library/include/io/serialization/serializer.hpp b/src/library/include/io/serialization/serializer.hpp
index 339fd8a..935d885 100644
--- a/src/library/include/io/serialization/serializer.hpp
+++ b/src/library/include/io/serialization/serializer.hpp
@@ -17,6 +17,7 @@
 #define MAP_MATCHING_2_IO_SERIALIZATION_SERIALIZER_HPP
 
 #include <fstream>
+#include <stdexcept>
 
 #include <boost/archive/binary_oarchive.hpp>
 
@@ -35,10 +36,19 @@ namespace map_matching_2::io::serialization {
             std::ofstream file;
             file.open(this->filename(), std::ios_base::binary | std::ios_base::trunc);
 
-            if (file.is_open() && file.good()) {
+            if (not file.is_open() or not file.good()) {
+                throw std::runtime_error{"file " + this->filename() + " could not be opened for writing."};
+            }
+
+            {
                 boost::archive::binary_oarchive out{file};
                 out << _data;
             }
+
+            file.close();
+            if (file.fail()) {
+                throw std::runtime_error{"file " + this->filename() + " could not be written."};
+            }
         }
 
     private:
-- 
2.43.0


From a2c1d17f252e2f33b70fd2f57a511c1c2b28da25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 13/34] fix: truncated memory mapped files crashed the program
 instead of being refused

---
 .../io/memory_mapped/storage/base_storage.hpp        | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/library/include/io/memory_mapped/storage/base_storage.hpp b/src/library/include/io/memory_mapped/storage/base_storage.hpp
index 89b95ba..424ee54 100644
--- a/src/library/include/io/memory_mapped/storage/base_storage.hpp
+++ b/src/library/include/io/memory_mapped/storage/base_storage.hpp
@@ -143,19 +143,31 @@ namespace map_matching_2::io::memory_mapped::storage {
 
         void open_read_only(const std::string &name) {
             _storage = new mmap_type{boost::interprocess::open_read_only, name.c_str()};
+            check_size(*_storage, name);
             process_info(boost::interprocess::open_read_only, *_storage, name);
         }
 
         void open(const std::string &name) {
             _storage = new mmap_type{boost::interprocess::open_only, name.c_str()};
+            check_size(*_storage, name);
             process_info(boost::interprocess::open_only, *_storage, name);
         }
 
         void open_copy_on_write(const std::string &name) {
             _storage = new mmap_type{boost::interprocess::open_copy_on_write, name.c_str()};
+            check_size(*_storage, name);
             process_info(boost::interprocess::open_copy_on_write, *_storage, name);
         }
 
+        static void check_size(mmap_type &storage, const std::string &name) {
+            if constexpr (is_managed_mapped_file<types>) {
+                const auto file_size = std::filesystem::file_size(name);
+                if (file_size < mmap_type::segment_manager::get_min_size() or file_size < storage.get_size()) {
+                    throw std::runtime_error{std::format("storage '{}' is truncated, please rebuild storage", name)};
+                }
+            }
+        }
+
         [[nodiscard]] static auto *find_info(mmap_type &storage) {
             return storage.template find<info>(info_identifier).first;
         }
-- 
2.43.0


From fe8134b199b506faa2fb74efb6cab431a8f079e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 14/34] fix: an error in the last write of a network file was
 not noticed

---
 src/library/include/io/serialization/serializer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/library/include/io/serialization/serializer.hpp b/src/library/include/io/serialization/serializer.hpp
index 935d885..82fc5ee 100644
--- a/src/library/include/io/serialization/serializer.hpp
+++ b/src/library/include/io/serialization/serializer.hpp
@@ -43,6 +43,8 @@ namespace map_matching_2::io::serialization {
             {
                 boost::archive::binary_oarchive out{file};
                 out << _data;
+                // the archive ignores errors when it is destroyed
+                file.flush();
             }
 
             file.close();
-- 
2.43.0


From f6989b006613af84ef1312a29349231b946edec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 15/34] fix: result files that could not be opened or written
 completely were not reported

---
 src/library/src/io/file_exporter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/library/src/io/file_exporter.cpp b/src/library/src/io/file_exporter.cpp
index 6d9981a..6a20312 100644
--- a/src/library/src/io/file_exporter.cpp
+++ b/src/library/src/io/file_exporter.cpp
@@ -13,6 +13,9 @@
 // You should have received a copy of the GNU Affero General Public License
 // along with this program. If not, see https://www.gnu.org/licenses/.
 
+#include <format>
+#include <iostream>
+
 #include "io/file_exporter.hpp"
 
 namespace map_matching_2::io {
@@ -20,6 +23,9 @@ namespace map_matching_2::io {
     void file_exporter::open() {
         if (not filename().empty()) {
             _out = std::ofstream{filename(), std::ofstream::out | std::ofstream::trunc};
+            if (not _out.is_open()) {
+                std::cerr << std::format("Error: could not open file '{}' for writing!", filename()) << std::endl;
+            }
         }
     }
 
@@ -28,6 +34,10 @@ namespace map_matching_2::io {
             try {
                 _out.close();
             } catch (std::exception &e) {}
+            if (not _out.good()) {
+                std::cerr << std::format("Error: could not write file '{}', it is incomplete!", filename())
+                        << std::endl;
+            }
         }
     }
 
-- 
2.43.0


From ba9ce2948e67a14fef0e24761336f39f02fed8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 16/34] fix: console mode emptied result files of earlier runs

---
 src/app/include/app/match.hpp            | 4 +++-
 src/library/include/matching/matcher.hpp | 7 +++++--
 src/library/src/compare/comparator.cpp   | 2 +-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/app/include/app/match.hpp b/src/app/include/app/match.hpp
index 9a66d9e..9349900 100644
--- a/src/app/include/app/match.hpp
+++ b/src/app/include/app/match.hpp
@@ -41,7 +41,9 @@ namespace map_matching_2::app {
         const auto output_file = std::filesystem::path{data.match_output.output} / data.match_output.filename;
         const auto output_candidates_file = std::filesystem::path{data.match_output.output} / data.expo.candidates;
         const auto output_filename = output_file.string();
-        const auto output_candidates_filename = output_candidates_file.string();
+        const auto output_candidates_filename = data.expo.candidates.empty()
+                                                ? std::string{}
+                                                : output_candidates_file.string();
 
         const matching::matcher_output_settings _output_settings{
                 output_filename, data.match_output.columns,
diff --git a/src/library/include/matching/matcher.hpp b/src/library/include/matching/matcher.hpp
index 9fd976a..2288764 100644
--- a/src/library/include/matching/matcher.hpp
+++ b/src/library/include/matching/matcher.hpp
@@ -68,8 +68,11 @@ namespace map_matching_2::matching {
         matcher(const network_type &network, const matcher_output_settings &output_settings,
                 std::uint32_t threads = boost::thread::hardware_concurrency())
             : base_type{threads}, _network{network},
-            _exporter{output_settings.filename, output_settings.columns},
-            _candidates_exporter{output_settings.candidates_filename, output_settings.candidates_columns},
+            _exporter{output_settings.console ? std::string{} : output_settings.filename, output_settings.columns},
+            _candidates_exporter{
+                    output_settings.console ? std::string{} : output_settings.candidates_filename,
+                    output_settings.candidates_columns
+            },
             _output_printer{output_settings.console, output_settings.verbose} {
             _output_printer.start();
             _exporter.start();
diff --git a/src/library/src/compare/comparator.cpp b/src/library/src/compare/comparator.cpp
index ae8f077..d6fca1f 100644
--- a/src/library/src/compare/comparator.cpp
+++ b/src/library/src/compare/comparator.cpp
@@ -23,7 +23,7 @@ namespace map_matching_2::compare {
 
     comparator::comparator(const comparator_output_settings &output_settings, const std::uint32_t threads)
         : base_type{threads},
-        _exporter{output_settings.filename, output_settings.columns},
+        _exporter{output_settings.console ? std::string{} : output_settings.filename, output_settings.columns},
         _output_printer{output_settings.console, output_settings.verbose} {
         _output_printer.start();
         _exporter.start();
-- 
2.43.0


From 991f80107aca00811afa2be8ab6acd82df8da378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 17/34] fix: points with equal timestamps were read in
 arbitrary order

---
 src/library/include/io/track/csv_track_importer.hpp | 2 +-
 src/library/include/io/track/gpx_track_importer.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/include/io/track/csv_track_importer.hpp b/src/library/include/io/track/csv_track_importer.hpp
index 04982d1..601bfed 100644
--- a/src/library/include/io/track/csv_track_importer.hpp
+++ b/src/library/include/io/track/csv_track_importer.hpp
@@ -226,7 +226,7 @@ namespace map_matching_2::io::track {
                     if (_selectors.empty() or _selectors.contains(id)) {
                         auto &measurements = std::any_cast<std::vector<measurement_type_out> &>(
                                 measurement_pair.second);
-                        std::sort(std::begin(measurements), std::end(measurements));
+                        std::stable_sort(std::begin(measurements), std::end(measurements));
                         _forwarder.pass(multi_track_type{
                                 id, geometry::measurements2line<measurement_type_out, line_type_out>(
                                         std::move(measurements))
diff --git a/src/library/include/io/track/gpx_track_importer.hpp b/src/library/include/io/track/gpx_track_importer.hpp
index 27feef4..c82ae8e 100644
--- a/src/library/include/io/track/gpx_track_importer.hpp
+++ b/src/library/include/io/track/gpx_track_importer.hpp
@@ -175,7 +175,7 @@ namespace map_matching_2::io::track {
                 }
             }
 
-            std::sort(std::begin(measurements), std::end(measurements));
+            std::stable_sort(std::begin(measurements), std::end(measurements));
 
             return geometry::measurements2line<measurement_type_out, line_type_out>(measurements);
         };
-- 
2.43.0


From 1986190baa9bd31da4b641072c3f585d893a6ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 18/34] fix: rows of several CSV files without ids shared the
 same ids

---
 src/library/src/io/csv_importer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/src/io/csv_importer.cpp b/src/library/src/io/csv_importer.cpp
index 494bd24..5e0747c 100644
--- a/src/library/src/io/csv_importer.cpp
+++ b/src/library/src/io/csv_importer.cpp
@@ -28,6 +28,7 @@ namespace map_matching_2::io {
         csv::CSVFormat format;
         configure_format(format);
 
+        std::size_t r = 0;
         const auto &filenames = this->filenames();
         for (std::size_t i = 0; i < filenames.size(); ++i) {
             const auto filename = filenames[i];
@@ -41,7 +42,7 @@ namespace map_matching_2::io {
 
             _columns = csv.get_col_names();
 
-            std::size_t l = 0, r = 0;
+            std::size_t l = 0;
             for (const auto &row : csv) {
                 if (l >= _skip_lines) {
                     process_row(i, r++, row);
-- 
2.43.0


From ddaab60b677587f51b9dd785d49a31d63a603044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 19/34] fix: compare ignored the time options of CSV files

---
 src/app/src/app/compare.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/src/app/compare.cpp b/src/app/src/app/compare.cpp
index 0bacc61..7970824 100644
--- a/src/app/src/app/compare.cpp
+++ b/src/app/src/app/compare.cpp
@@ -53,7 +53,7 @@ namespace map_matching_2::app {
         const auto compares_reprojector_variant = geometry::create_point_reprojector(data.srs_compare.srs_transform);
         if (data.comparison.file_extension == FILE_TYPE_CSV) {
             io::track::csv_track_importer csv_ground_truth_importer{
-                    data.comparison.files, data.csv_compare.selectors, _csv_settings(data.csv_compare),
+                    data.comparison.files, data.csv_compare.selectors, _csv_tracks_settings(data.csv_compare),
                     forwarder_compares, data.srs_compare.srs_transform, compares_reprojector_variant
             };
             verbose_frame("Reading Ground Truth", [&]() {
@@ -76,7 +76,7 @@ namespace map_matching_2::app {
         const auto matches_reprojector_variant = geometry::create_point_reprojector(data.srs_match.srs_transform);
         if (data.match.file_extension == FILE_TYPE_CSV) {
             io::track::csv_track_importer csv_matches_importer{
-                    data.match.files, data.csv_match.selectors, _csv_settings(data.csv_match),
+                    data.match.files, data.csv_match.selectors, _csv_tracks_settings(data.csv_match),
                     forwarder_matches, data.srs_match.srs_transform, matches_reprojector_variant
             };
             csv_matches_importer.read();
-- 
2.43.0


From 5307df649d11645c3204949956824c7c84f1ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 20/34] fix: an unknown road in a list of roads aborted reading
 instead of skipping the file

---
 src/library/include/io/track/edges_list_importer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/include/io/track/edges_list_importer.hpp b/src/library/include/io/track/edges_list_importer.hpp
index bc4619f..b9e0a29 100644
--- a/src/library/include/io/track/edges_list_importer.hpp
+++ b/src/library/include/io/track/edges_list_importer.hpp
@@ -150,8 +150,8 @@ namespace map_matching_2::io::track {
                             }
                             prev_edge_id = edge_id;
 
-                            const auto &edge_descriptors = _edge_map.at(edge_id);
-                            if (edge_descriptors.empty()) {
+                            const auto search = _edge_map.find(edge_id);
+                            if (search == std::cend(_edge_map)) {
                                 std::cerr << std::format(
                                         "file '{}' contains edge with id {} but no such edge exists in the network, skipping ...",
                                         filenames[i], edge_id) << std::endl;
@@ -159,7 +159,7 @@ namespace map_matching_2::io::track {
                                 break;
                             }
 
-                            edge_descriptor_list.emplace_back(edge_descriptors);
+                            edge_descriptor_list.emplace_back(search->second);
                         }
                     }
 
-- 
2.43.0


From 2579d949a7908a4aa8ef4f96d349deaca8c9c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 21/34] fix: tracks were cut off when their files could not be
 read completely

---
 src/library/include/io/track/edges_list_importer.hpp      | 6 +++++-
 .../include/io/track/seattle_ground_truth_importer.hpp    | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/library/include/io/track/edges_list_importer.hpp b/src/library/include/io/track/edges_list_importer.hpp
index b9e0a29..3efe425 100644
--- a/src/library/include/io/track/edges_list_importer.hpp
+++ b/src/library/include/io/track/edges_list_importer.hpp
@@ -163,7 +163,11 @@ namespace map_matching_2::io::track {
                         }
                     }
 
-                    if (edge_descriptor_list.empty()) {
+                    if (not route.is_open() or route.bad()) {
+                        std::cerr << std::format(
+                                "file '{}' could not be read completely, skipping ...", filenames[i]) << std::endl;
+                        error = true;
+                    } else if (edge_descriptor_list.empty()) {
                         std::cerr << std::format(
                                 "file '{}' did not contain anything to extract, skipping ...",
                                 filenames[i]) << std::endl;
diff --git a/src/library/include/io/track/seattle_ground_truth_importer.hpp b/src/library/include/io/track/seattle_ground_truth_importer.hpp
index d6b1394..7e48cc6 100644
--- a/src/library/include/io/track/seattle_ground_truth_importer.hpp
+++ b/src/library/include/io/track/seattle_ground_truth_importer.hpp
@@ -74,8 +74,7 @@ namespace map_matching_2::io::track {
                         continue;
                     }
 
-                    std::ifstream seattle;
-                    seattle.open(filenames[i]);
+                    std::ifstream seattle = open_file(filenames[i]);
 
                     boost::unordered::unordered_flat_map<std::uint64_t, std::pair<line_type, bool>> lines;
 
@@ -99,6 +98,7 @@ namespace map_matching_2::io::track {
 
                         lines.emplace(edge_id, std::pair{std::move(edge_line), two_way});
                     }
+                    check_read(seattle, filenames[i]);
 
                     if (not std::filesystem::exists(filenames[i + 1])) {
                         std::cerr << std::format("file '{}' does not exist, skipping ...", filenames[i + 1]) <<
@@ -106,8 +106,7 @@ namespace map_matching_2::io::track {
                         continue;
                     }
 
-                    std::ifstream route;
-                    route.open(filenames[i + 1]);
+                    std::ifstream route = open_file(filenames[i + 1]);
 
                     line_type ground_truth;
 
@@ -136,6 +135,7 @@ namespace map_matching_2::io::track {
                             };
                         }
                     }
+                    check_read(route, filenames[i + 1]);
 
                     std::string id_str{std::to_string(i / 2)};
                     _forwarder.pass(multi_track_type{id_str, std::move(ground_truth), _reprojector_variant});
-- 
2.43.0


From 6a86462fdcb8fb58d94a0e46512f097e1580183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 22/34] fix: tracks with empty parts, like empty GPX track
 segments, crashed the program

---
 .../include/geometry/rich_type/multi_rich_line_data.hpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/library/include/geometry/rich_type/multi_rich_line_data.hpp b/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
index 8a48590..f1b28fd 100644
--- a/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/multi_rich_line_data.hpp
@@ -176,7 +176,7 @@ namespace map_matching_2::geometry {
                         if (rich_line.has_azimuth()) {
                             this->_azimuth = rich_line.azimuth();
                         }
-                    } else {
+                    } else if (not multi_rich_line.front().empty() and not multi_rich_line.back().empty()) {
                         const auto &start = multi_rich_line.front().front();
                         const auto &end = multi_rich_line.back().back();
                         if (not geometry::equals_points(start, end)) {
@@ -196,9 +196,9 @@ namespace map_matching_2::geometry {
                         const auto &start = multi_rich_line[i];
                         const auto &end = multi_rich_line[i + 1];
 
-                        if (geometry::equals_points(start.back(), end.front()) and
-                            start.size() >= 2 and start.has_azimuth(start.size() - 2) and
-                            end.size() >= 2 and end.has_azimuth(0)) {
+                        if (start.size() >= 2 and end.size() >= 2 and
+                            geometry::equals_points(start.back(), end.front()) and
+                            start.has_azimuth(start.size() - 2) and end.has_azimuth(0)) {
                             // used for directions between lines here
                             this->_azimuths.emplace_back(geometry::direction_deg(
                                     start.azimuth(start.size() - 2), end.azimuth(0)));
-- 
2.43.0


From 2620143eaa3dc08db9f421f455e491261b8ec9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 23/34] fix: OSM export of networks that were transformed to
 another srs wrote arbitrary coordinates

---
 src/library/src/geometry/srs.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/library/src/geometry/srs.cpp b/src/library/src/geometry/srs.cpp
index 8a29082..c44e1b1 100644
--- a/src/library/src/geometry/srs.cpp
+++ b/src/library/src/geometry/srs.cpp
@@ -130,10 +130,11 @@ namespace map_matching_2::geometry {
     srs_transform compute_next_srs_transform(const srs_transform &_srs_transform, const std::int32_t transform_srs_code,
             const SRS transform_srs_type) {
 
-        if (_srs_transform.transform_srs_type != SRS::CS_INVALID and _srs_transform.srs_code != transform_srs_code and
-            _srs_transform.transform_srs_type != transform_srs_type) {
+        if (_srs_transform.transform_srs_type != SRS::CS_INVALID and
+            (_srs_transform.transform_srs_code != transform_srs_code or
+                _srs_transform.transform_srs_type != transform_srs_type)) {
             return srs_transform{
-                    srs{_srs_transform.srs_code, _srs_transform.transform_srs_type},
+                    srs{_srs_transform.transform_srs_code, _srs_transform.transform_srs_type},
                     transform_srs_code, transform_srs_type
             };
         }
-- 
2.43.0


From 89a51571fde20d907e4ccae78bfd7f16ce542850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 24/34] fix: OSM export gave all nodes without roads the number
 of another node

---
 .../include/io/network/osm_exporter.hpp       | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/library/include/io/network/osm_exporter.hpp b/src/library/include/io/network/osm_exporter.hpp
index e301e60..d5431e4 100644
--- a/src/library/include/io/network/osm_exporter.hpp
+++ b/src/library/include/io/network/osm_exporter.hpp
@@ -52,24 +52,21 @@ namespace map_matching_2::io::network {
 
             // index all points
             std::uint64_t index = 0;
+            const auto vertices_v = _graph.vertices_view();
+            for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
+                const vertex_data_type &vertex = vertices_v[it].get();
+                add_index(vertex.point, index);
+            }
             const auto edges_v = _graph.edges_view();
             for (auto it = edges_v.begin(); it != edges_v.end(); it = edges_v.next(it)) {
                 const edge_data_type &edge = edges_v[it].get();
                 for (const auto &point : edge.rich_line.line()) {
-                    point_type _point;
-                    geometry::reproject_point(point, _point, _reprojector_variant);
-                    const auto x = boost::geometry::get<0>(_point);
-                    const auto y = boost::geometry::get<1>(_point);
-                    point_map_key_type point_map_key{x, y};
-                    if (not _point_map.contains(point_map_key)) {
-                        _point_map.emplace(point_map_key, index++);
-                    }
+                    add_index(point, index);
                 }
             }
 
             // add nodes
             point_set_type points_added;
-            const auto vertices_v = _graph.vertices_view();
             for (auto it = vertices_v.begin(); it != vertices_v.end(); it = vertices_v.next(it)) {
                 const vertex_data_type &vertex = vertices_v[it].get();
                 add_node(buffer, vertex, points_added);
@@ -127,6 +124,17 @@ namespace map_matching_2::io::network {
         point_map_type _point_map{};
         geometry::point_reprojector_variant _reprojector_variant;
 
+        void add_index(const auto &point, std::uint64_t &index) {
+            point_type _point;
+            geometry::reproject_point(point, _point, _reprojector_variant);
+            const auto x = boost::geometry::get<0>(_point);
+            const auto y = boost::geometry::get<1>(_point);
+            point_map_key_type point_map_key{x, y};
+            if (not _point_map.contains(point_map_key)) {
+                _point_map.emplace(point_map_key, index++);
+            }
+        }
+
         void add_node(osmium::memory::Buffer &buffer, const vertex_data_type &node, point_set_type &points_added) {
             osmium::builder::NodeBuilder node_builder{buffer};
 
-- 
2.43.0


From 11c10c0af4f17fec55eec16480995da30fab5b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 25/34] fix: OSM export lost roads and attributes of opposite
 one-way roads and wrote several oneway tags

---
 .../include/io/network/osm_exporter.hpp       | 44 +++++++++++--------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/library/include/io/network/osm_exporter.hpp b/src/library/include/io/network/osm_exporter.hpp
index d5431e4..e150e23 100644
--- a/src/library/include/io/network/osm_exporter.hpp
+++ b/src/library/include/io/network/osm_exporter.hpp
@@ -16,7 +16,9 @@
 #ifndef MAP_MATCHING_2_IO_NETWORK_OSM_EXPORTER_HPP
 #define MAP_MATCHING_2_IO_NETWORK_OSM_EXPORTER_HPP
 
+#include <string>
 #include <utility>
+#include <vector>
 
 #include <boost/unordered/unordered_flat_set.hpp>
 #include <boost/unordered/unordered_flat_map.hpp>
@@ -82,19 +84,23 @@ namespace map_matching_2::io::network {
             }
 
             // add ways
-            boost::unordered::unordered_flat_set<std::size_t> edges_reversed;
+            boost::unordered::unordered_flat_set<std::size_t> edges_added;
             for (auto it = edges_v.begin(); it != edges_v.end(); it = edges_v.next(it)) {
                 const edge_data_type &edge = edges_v[it].get();
                 bool is_oneway = true;
-                if (not edges_reversed.contains(_graph.edge_index(it))) {
+                if (edges_added.emplace(_graph.edge_index(it)).second) {
                     const auto target = _graph.target(it);
                     const auto out_edges_v = _graph.out_edges_view(target);
                     for (auto out_it = out_edges_v.begin();
                          out_it != out_edges_v.end(); out_it = out_edges_v.next(out_it)) {
                         const edge_data_type &out_edge = out_edges_v[out_it].get();
-                        if (geometry::lines_are_reversed(edge.rich_line.line(), out_edge.rich_line.line())) {
-                            edges_reversed.emplace(_graph.edge_index(out_it));
+                        const auto out_index = _graph.edge_index(out_it);
+                        if (not edges_added.contains(out_index) and
+                            geometry::lines_are_reversed(edge.rich_line.line(), out_edge.rich_line.line()) and
+                            way_tags(edge) == way_tags(out_edge)) {
+                            edges_added.emplace(out_index);
                             is_oneway = false;
+                            break;
                         }
                     }
                     add_way(buffer, edge, is_oneway, index++);
@@ -197,27 +203,27 @@ namespace map_matching_2::io::network {
 
             {
                 osmium::builder::TagListBuilder way_tag_builder{way_builder};
-                bool has_oneway = false;
-                const auto &tags = _tag_helper.edge_tags(edge.id);
-                for (const auto &tag : tags) {
-                    const auto pair = _tag_helper.tag(tag);
-                    if (pair.first == "oneway") {
-                        if (pair.second == "yes") {
-                            // one way detected, don't add again later
-                            has_oneway = true;
-                        } else if (pair.second == "-1" or pair.second == "reverse") {
-                            // skip reverse tags as they were corrected on import
-                            continue;
-                        }
-                    }
-                    way_tag_builder.add_tag(pair.first, pair.second);
+                for (const auto &tag : way_tags(edge)) {
+                    way_tag_builder.add_tag(tag.first, tag.second);
                 }
-                if (not has_oneway and is_oneway) {
+                if (is_oneway) {
                     way_tag_builder.add_tag("oneway", "yes");
                 }
             }
         }
 
+        [[nodiscard]] std::vector<std::pair<std::string, std::string>> way_tags(const edge_data_type &edge) const {
+            std::vector<std::pair<std::string, std::string>> way_tags;
+            for (const auto &tag : _tag_helper.edge_tags(edge.id)) {
+                const auto pair = _tag_helper.tag(tag);
+                if (pair.first != "oneway") {
+                    // the exported way has its own direction
+                    way_tags.emplace_back(pair.first, pair.second);
+                }
+            }
+            return way_tags;
+        }
+
         void write_buffer(osmium::memory::Buffer &&buffer) const {
             osmium::io::File output_file{filename()};
 
-- 
2.43.0


From e3f82550fe277ece08f45aae2f2d4129d47d67a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:23 +0000
Subject: [PATCH 26/34] fix: joining turns drew a straight line between routes
 that do not meet

With --skip-errors off, an unroutable pair of candidates leaves two
neighbouring routes that do not touch. Merging turns joined them all the
same when the earlier route ended within an edge, and the match crossed
open land in a straight line. Only routes that are attached to each other
are joined now.
---
 src/library/include/matching/algorithm/route.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index 1101e13..a35f363 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -278,7 +278,8 @@ namespace map_matching_2::matching {
                 if (join_merges and not skipped and
                     not routes.empty() and not route.is_invalid() and not route.rich_lines().empty()) {
                     route_type &prev_route = routes.back();
-                    if (not prev_route.is_invalid() and not prev_route.empty()) {
+                    // routes next to a gap that could not be routed do not attach, so there is nothing to join
+                    if (not prev_route.is_invalid() and not prev_route.empty() and prev_route.attaches(route)) {
                         const auto &prev_route_back_ref_var = prev_route.rich_lines().back();
                         std::visit([this, &prev_route, &route](auto &&prev_route_back_ref) {
                             const auto &prev_route_back = prev_route_back_ref.get();
-- 
2.43.0


From 18ab6702ad84c38357d57c977831ab8b75f42a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 27/34] fix: a* search returned a path through the first vertex
 for unreachable goals

Following the predecessors of a goal that was never reached inserted vertex 0
as its predecessor, so the search returned a path over vertex 0, and its route
was stored under the wrong start in the route cache. An unreachable goal has
no path now, as with the default search.
---
 src/library/include/geometry/network/network.hpp | 11 +++++++----
 src/library/include/matching/algorithm/route.hpp |  7 +++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index a1721e4..238035b 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -280,10 +280,13 @@ namespace map_matching_2::geometry::network {
                     predecessors, distances, colors, queue, visitor, weight_func, heuristic_func);
 
             std::list<vertex_descriptor> shortest_path;
-            for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
-                shortest_path.emplace_front(vertex);
-                if (predecessors[vertex] == vertex)
-                    break;
+            // a goal that was not reached has no predecessor, there is no path then
+            if (predecessors.contains(goal)) {
+                for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
+                    shortest_path.emplace_front(vertex);
+                    if (predecessors[vertex] == vertex)
+                        break;
+                }
             }
 
             predecessors.clear();
diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index a35f363..d8841aa 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -117,8 +117,11 @@ namespace map_matching_2::matching {
 
                 std::vector<std::list<vertex_descriptor>> shortest_paths;
                 if (a_star) {
-                    shortest_paths.emplace_back(
-                            this->shortest_path(candidates, from, source, to, target, max_distance_factor));
+                    auto shortest_path = this->shortest_path(
+                            candidates, from, source, to, target, max_distance_factor);
+                    if (not shortest_path.empty()) {
+                        shortest_paths.emplace_back(std::move(shortest_path));
+                    }
                 } else {
                     shortest_paths = this->shortest_paths(candidates, from, source, to, max_distance_factor);
                 }
-- 
2.43.0


From fb6f24e666c62ee12ef3d9b0bd2877100d5a0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 28/34] fix: routes from the first point of an edge to a later
 point of it went another way round

A candidate on the first point of an edge has nothing of that edge before it.
Such a candidate was not connected with later candidates on the same edge, the
route left at the far end and came back to the start, or none was found at all.
---
 src/library/include/matching/algorithm/route.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/library/include/matching/algorithm/route.hpp b/src/library/include/matching/algorithm/route.hpp
index d8841aa..5781c4c 100644
--- a/src/library/include/matching/algorithm/route.hpp
+++ b/src/library/include/matching/algorithm/route.hpp
@@ -184,13 +184,16 @@ namespace map_matching_2::matching {
                     const auto &edge = _network.edge(candidate_from.edge_desc);
                     if (edge.rich_line.has_length() and start->length() + end->length() >= edge.rich_line.length()) {
                         // if both lines overlap (which is only possible when sum of lengths is larger or equal than edge length)
-                        if (candidate_from.from->has_length() and candidate_to.from->has_length() and
-                            candidate_from.from->length() <= candidate_to.from->length()) {
+                        // when the from candidate is the first point of the edge, nothing of the edge is before it
+                        const length_type from_distance = candidate_from.from->has_length()
+                                                          ? candidate_from.from->length()
+                                                          : geometry::default_float_type<length_type>::v0;
+                        if (candidate_to.from->has_length() and from_distance <= candidate_to.from->length()) {
                             // only continue if substring is possible, else routing is needed
                             // std::cout << edge << "\n" << candidate_from << "\n" << candidate_to << std::endl;
                             return route_type{
                                     geometry::substring<lazy_rich_line_type>(
-                                            edge.rich_line, candidate_from.from->length(), candidate_to.from->length(),
+                                            edge.rich_line, from_distance, candidate_to.from->length(),
                                             candidate_from.projection_point, candidate_to.projection_point, true, true)
                             };
                         }
-- 
2.43.0


From aa548b634ebe59820a6865180b0315a3cbd2807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 29/34] fix: a line without its last point kept the length and
 directions of the whole line

sub_data compared the number of segments off by one, so the sub line that leaves
out the last segment inherited the totals of the full line, while the full
range did not. With within-edge turns, matches reported a length that their
geometry does not have.
---
 .../geometry/rich_type/rich_line_data.hpp        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/library/include/geometry/rich_type/rich_line_data.hpp b/src/library/include/geometry/rich_type/rich_line_data.hpp
index 5ece7a1..db49f1f 100644
--- a/src/library/include/geometry/rich_type/rich_line_data.hpp
+++ b/src/library/include/geometry/rich_type/rich_line_data.hpp
@@ -476,10 +476,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to}
                     : length_container_type{},
@@ -498,10 +498,10 @@ namespace map_matching_2::geometry {
                 return rich_line_data{allocator};
             }
             return rich_line_data{
-                    (from == 0 and to + 1 == _lengths.size()) ? _length : not_initialized<length_type>,
-                    (from == 0 and to + 1 == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _directions : not_initialized<angle_type>,
-                    (from == 0 and to + 1 == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
+                    (from == 0 and to == _lengths.size()) ? _length : not_initialized<length_type>,
+                    (from == 0 and to == _lengths.size()) ? _azimuth : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _directions : not_initialized<angle_type>,
+                    (from == 0 and to == _azimuths.size()) ? _absolute_directions : not_initialized<angle_type>,
                     (not _lengths.empty() and from <= to and from < _lengths.size() and to <= _lengths.size())
                     ? length_container_type{_lengths.cbegin() + from, _lengths.cbegin() + to, allocator}
                     : length_container_type{allocator},
-- 
2.43.0


From a069ed549ae70118c0b5af556d2bf445be2847b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 30/34] fix: --filter-duplicates did nothing

The duplicates were searched in a track that had already been moved away, so none
was ever found and the prepared track kept them. The detector also dropped the
mark of the points without defects, so that all points would have been removed.
---
 src/library/include/environment/environments/hmm.hpp    | 4 ++--
 src/library/include/environment/environments/single.hpp | 4 ++--
 src/library/include/matching/algorithm/detect.hpp       | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/library/include/environment/environments/hmm.hpp b/src/library/include/environment/environments/hmm.hpp
index 0091824..5b46e04 100644
--- a/src/library/include/environment/environments/hmm.hpp
+++ b/src/library/include/environment/environments/hmm.hpp
@@ -78,8 +78,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
diff --git a/src/library/include/environment/environments/single.hpp b/src/library/include/environment/environments/single.hpp
index 270eaaa..748aaaa 100644
--- a/src/library/include/environment/environments/single.hpp
+++ b/src/library/include/environment/environments/single.hpp
@@ -98,8 +98,8 @@ namespace map_matching_2::environment {
             _track = std::move(track);
 
             if (_settings.filter_duplicates) {
-                const auto defects = _algorithms.detector.detect(track.rich_line, _settings.filter_duplicates);
-                _algorithms.detector.remove_defects(track.rich_line, defects);
+                const auto defects = _algorithms.detector.detect(_track.rich_line, _settings.filter_duplicates);
+                _algorithms.detector.remove_defects(_track.rich_line, defects);
 
                 if (abort()) {
                     return;
diff --git a/src/library/include/matching/algorithm/detect.hpp b/src/library/include/matching/algorithm/detect.hpp
index 163a0c9..c81b10c 100644
--- a/src/library/include/matching/algorithm/detect.hpp
+++ b/src/library/include/matching/algorithm/detect.hpp
@@ -67,7 +67,7 @@ namespace map_matching_2::matching {
             }
 
             for (auto &defect_set : defects) {
-                if (not defect_set.empty()) {
+                if (defect_set.size() > 1) {
                     defect_set.erase(defect::none);
                 }
             }
-- 
2.43.0


From 1374a432e6c25c4d4b2ebab6c637ccb1f6c9d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:10 +0000
Subject: [PATCH 31/34] fix: routing gave up nodes that a longer path reached
 first

Marking the target of an edge as visited when the path over this edge exceeds the
maximum routing distance kept shorter paths to the same node from being found, so
reachable candidates were left unconnected. The search now ends at the first node
that is too far away itself.
---
 .../include/geometry/network/network.hpp      | 73 +++++++++----------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 238035b..03d1fea 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -224,8 +224,8 @@ namespace map_matching_2::geometry::network {
             };
 
             boost::unordered_flat_set<vertex_descriptor> goals_found;
-            goals_visitor<decltype(weight_func)> visitor{
-                    max_distance, max_distance_factor, goals, goals_found, distances, colors, weight_func
+            goals_visitor visitor{
+                    max_distance, max_distance_factor, goals, goals_found, distances
             };
 
             graph::dijkstra_shortest_path(this->graph(), start,
@@ -272,8 +272,8 @@ namespace map_matching_2::geometry::network {
                         this->graph().get_vertex_data(goal_desc).point);
             };
 
-            goal_visitor<decltype(weight_func)> visitor{
-                    max_distance, max_distance_factor, goal, distances, colors, weight_func
+            goal_visitor visitor{
+                    max_distance, max_distance_factor, goal, distances
             };
 
             graph::a_star_shortest_path(this->graph(), start, goal,
@@ -281,7 +281,7 @@ namespace map_matching_2::geometry::network {
 
             std::list<vertex_descriptor> shortest_path;
             // a goal that was not reached has no predecessor, there is no path then
-            if (predecessors.contains(goal)) {
+            if (visitor.found()) {
                 for (vertex_descriptor vertex = goal;; vertex = predecessors[vertex]) {
                     shortest_path.emplace_front(vertex);
                     if (predecessors[vertex] == vertex)
@@ -406,33 +406,25 @@ namespace map_matching_2::geometry::network {
             return results;
         }
 
-        template<typename WeightFunc>
         class base_max_distance_visitor : public graph::visitor {
 
         public:
             constexpr base_max_distance_visitor(const distance_type max_distance,
                     const double max_distance_factor,
-                    graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
-                    const WeightFunc &weight_func)
-                : _max_distance{max_distance}, _max_distance_factor{max_distance_factor}, _distances{distances},
-                _colors{colors}, _weight_func{weight_func} {}
-
-            void examine_edge(const graph_type &graph,
-                    const typename graph::graph_traits<graph_type>::edge_descriptor &edge_desc) {
+                    graph::distances_type<length_type> &distances)
+                : _max_distance{max_distance}, _max_distance_factor{max_distance_factor}, _distances{distances} {}
+
+            void examine_vertex(const graph_type &graph,
+                    const typename graph::graph_traits<graph_type>::vertex_descriptor &vertex_desc) {
                 if (_max_distance_factor < 0.0) {
                     // effectively disable this method if the max-distance-factor is disabled
                     return;
                 }
 
-                const vertex_descriptor &source = graph.source(edge_desc);
-                const auto distance_source = _distances[source];
-                const auto weight = _weight_func(graph.get_edge_data(edge_desc));
-                const auto distance_target = distance_source + weight;
-                if (distance_target > _max_distance_factor * _max_distance) {
-                    // disable target
-                    const vertex_descriptor &target = graph.target(edge_desc);
-                    _colors[target] = graph::color::BLACK;
+                // vertices are examined in order, so when this one is too far away, all goals left are, too;
+                // a vertex must not be given up earlier as a shorter path to it can still be found
+                if (_distances[vertex_desc] > _max_distance_factor * _max_distance) {
+                    this->stop();
                 }
             }
 
@@ -441,29 +433,29 @@ namespace map_matching_2::geometry::network {
             const double _max_distance_factor;
 
             graph::distances_type<length_type> &_distances;
-            graph::colors_type &_colors;
-            const WeightFunc &_weight_func;
 
         };
 
-        template<typename WeightFunc>
-        class goals_visitor : public base_max_distance_visitor<WeightFunc> {
+        class goals_visitor : public base_max_distance_visitor {
 
         public:
-            using base_type = base_max_distance_visitor<WeightFunc>;
+            using base_type = base_max_distance_visitor;
 
             constexpr goals_visitor(const distance_type max_distance,
                     const double max_distance_factor,
                     const boost::unordered_flat_set<vertex_descriptor> &goals,
                     boost::unordered_flat_set<vertex_descriptor> &goals_found,
-                    graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
-                    const WeightFunc &weight_func)
-                : base_type{max_distance, max_distance_factor, distances, colors, weight_func},
+                    graph::distances_type<length_type> &distances)
+                : base_type{max_distance, max_distance_factor, distances},
                 _goals{goals}, _goals_found{goals_found} {}
 
             void finish_vertex(const graph_type &graph,
                     const typename graph::graph_traits<graph_type>::vertex_descriptor &vertex_desc) {
+                if (this->stopped()) {
+                    // vertex is too far away
+                    return;
+                }
+
                 if (_goals.contains(vertex_desc)) {
                     _goals_found.emplace(vertex_desc);
                 }
@@ -479,30 +471,33 @@ namespace map_matching_2::geometry::network {
 
         };
 
-        template<typename WeightFunc>
-        class goal_visitor : public base_max_distance_visitor<WeightFunc> {
+        class goal_visitor : public base_max_distance_visitor {
 
         public:
-            using base_type = base_max_distance_visitor<WeightFunc>;
+            using base_type = base_max_distance_visitor;
 
             constexpr goal_visitor(const distance_type max_distance,
                     const double max_distance_factor,
                     const vertex_descriptor &goal,
-                    graph::distances_type<length_type> &distances,
-                    graph::colors_type &colors,
-                    const WeightFunc &weight_func)
-                : base_type{max_distance, max_distance_factor, distances, colors, weight_func},
+                    graph::distances_type<length_type> &distances)
+                : base_type{max_distance, max_distance_factor, distances},
                 _goal{goal} {}
 
             void finish_vertex(const graph_type &graph,
                     const typename graph::graph_traits<graph_type>::vertex_descriptor &vertex_desc) {
-                if (_goal == vertex_desc) {
+                if (not this->stopped() and _goal == vertex_desc) {
+                    _found = true;
                     this->stop();
                 }
             }
 
+            [[nodiscard]] constexpr bool found() const {
+                return _found;
+            }
+
         private:
             const vertex_descriptor &_goal;
+            bool _found{false};
 
         };
 
-- 
2.43.0


From 0fbbdcb25fd94efc08b347a323bd73d66326f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:50 +0000
Subject: [PATCH 32/34] fix: --columns edge_ids and --export-edges lost edges
 that were driven only in part

The edge of a matched segment was searched among the network segments that
intersect with it. A part of a segment has rounded end points and usually does not
intersect with the segment it lies on, so no edge was found, or only one that
crosses it. The closest segment in the same direction is the edge now.
---
 .../include/geometry/network/network.hpp      | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/library/include/geometry/network/network.hpp b/src/library/include/geometry/network/network.hpp
index 03d1fea..13a9ef5 100644
--- a/src/library/include/geometry/network/network.hpp
+++ b/src/library/include/geometry/network/network.hpp
@@ -19,6 +19,7 @@
 #include "network_base.hpp"
 
 #include <boost/container/set.hpp>
+#include <boost/math/constants/constants.hpp>
 #include <boost/unordered/unordered_flat_set.hpp>
 
 #include "graph/algorithm/dijkstra_shortest_path.hpp"
@@ -185,27 +186,34 @@ namespace map_matching_2::geometry::network {
         }
 
         [[nodiscard]] std::pair<bool, edge_descriptor> fitting_edge(const segment_type &segment) const {
-            using angle_type = typename edge_data_type::rich_line_type::angle_type;
-            angle_type best_angle = geometry::default_float_type<angle_type>::v180;
+            const auto length = boost::geometry::length(segment);
+            if (not (length > 0)) {
+                return std::pair{false, edge_descriptor{}};
+            }
+
             const auto azimuth = geometry::azimuth_segment_deg(segment);
+            point_type middle;
+            boost::geometry::line_interpolate(segment, length / 2, middle);
+
+            // the end points of a part of a segment are rounded, thus it seldom intersects with the segment that it is
+            // a part of, so the segments near its middle are searched for the closest one in the same direction
             const edge_descriptor *edge = nullptr;
-            const segment_type *best_segment = nullptr;
+            double best_difference = std::numeric_limits<double>::infinity();
 
-            const auto segments = query_segments(boost::geometry::index::intersects(segment));
+            const auto segments = query_segments(boost::geometry::index::nearest(middle, 16));
             for (const auto &segment_pair : segments) {
                 const segment_type &near_segment = segment_pair.first;
                 const auto near_azimuth = geometry::azimuth_segment_deg(near_segment);
-                const auto angle_diff = std::fabs(geometry::angle_diff(azimuth, near_azimuth));
-                if (best_segment == nullptr or
-                    (geometry::equals_points(segment.first, near_segment.first) and
-                        geometry::equals_points(segment.second, near_segment.second)) or angle_diff < best_angle) {
-                    best_angle = angle_diff;
-                    best_segment = &near_segment;
+                const double angle_diff = std::fabs(geometry::angle_diff(azimuth, near_azimuth)) *
+                        boost::math::constants::degree<double>();
+                const double difference = angle_diff + boost::geometry::distance(middle, near_segment) / length;
+                if (difference < best_difference) {
+                    best_difference = difference;
                     edge = &segment_pair.second.first;
                 }
             }
 
-            if (best_segment != nullptr) {
+            if (edge != nullptr) {
                 return std::pair{true, *edge};
             }
             return std::pair{false, edge_descriptor{}};
-- 
2.43.0


From 7f32dd72cc51c32bde9a1d27611bf1fefca8e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:57 +0000
Subject: [PATCH 33/34] fix: which candidates a point gets depended on measured
 durations

Whether a projection is snapped to a point of its road was decided by scanning the
points of the road or by querying the points of the whole network, whichever had been
faster so far. Both do not give the same results: the query may find a point of another
road, or not the one of this road. The points of the road are always scanned now.
---
 .../matching/algorithm/candidate_search.hpp   | 81 ++++---------------
 1 file changed, 14 insertions(+), 67 deletions(-)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index d708a62..f0ae5b6 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -32,7 +32,6 @@
 #include "geometry/algorithm/buffer.hpp"
 #include "geometry/algorithm/substring.hpp"
 
-#include "util/benchmark.hpp"
 #include "util/time_helper.hpp"
 
 #include "../settings.hpp"
@@ -75,9 +74,6 @@ namespace map_matching_2::matching {
     private:
         util::time_helper &_time_helper;
         const network_type &_network;
-        mutable std::size_t _edge_size_switch{16};
-        mutable double _edge_duration{std::numeric_limits<double>::signaling_NaN()},
-                _index_duration{std::numeric_limits<double>::signaling_NaN()};
 
         void _candidate_search_individual(
                 boost::container::multiset<candidate_edge_type> &candidate_edge_set, const track_type &track,
@@ -226,71 +222,22 @@ namespace map_matching_2::matching {
                         projection.second = projection.first;
                     }
 
-                    // adapt the switch size dynamically based on measured times
-                    if (not std::isnan(_edge_duration) and not std::isnan(_index_duration)) {
-                        if (_edge_duration < _index_duration) {
-                            const double factor = _index_duration / _edge_duration;
-                            _edge_size_switch = static_cast<std::size_t>(_edge_size_switch * factor);
-                        } else {
-                            const double factor = _edge_duration / _index_duration;
-                            _edge_size_switch = static_cast<std::size_t>(_edge_size_switch / factor);
+                    // check if point is near an existing edge line point, if so, replace with it
+                    const point_type *edge_point = nullptr;
+                    distance_type edge_point_distance = geometry::default_float_type<distance_type>::v1;
+                    for (const auto &current_edge_point : edge_line) {
+                        auto tmp_distance = geometry::point_distance(current_edge_point, projection.second);
+                        if (tmp_distance < edge_point_distance) {
+                            edge_point_distance = tmp_distance;
+                            edge_point = &current_edge_point;
                         }
-                        // set edge_size_switch to at least 2 since no real edge size is below 2 (exactly one segment)
-                        _edge_size_switch = std::max(static_cast<std::size_t>(2), _edge_size_switch);
                     }
-                    // the next both cases are equivalent, but with small edges, using the index is slower
-                    if (edge_line.size() <= _edge_size_switch) {
-                        // check if point is near an existing edge line point, if so, replace with it
-                        const point_type *edge_point = nullptr;
-                        distance_type edge_point_distance = geometry::default_float_type<distance_type>::v1;
-                        double duration = util::benchmark([&]() {
-                            for (const auto &current_edge_point : edge_line) {
-                                auto tmp_distance = geometry::point_distance(current_edge_point, projection.second);
-                                if (tmp_distance < edge_point_distance) {
-                                    edge_point_distance = tmp_distance;
-                                    edge_point = &current_edge_point;
-                                }
-                            }
-                        });
-                        if (edge_point != nullptr and
-                            not geometry::equals_points(*edge_point, projection.second) and
-                            edge_point_distance < 1e-4) {
-                            // if within one millimeter, replace point with found point, so "snap to original edge point"
-                            projection.second = *edge_point;
-                            projection_distance = geometry::point_distance(projection.first, projection.second);
-                        }
-                        const double edge_factor = static_cast<double>(_edge_size_switch) / edge_line.size();
-                        _edge_duration = duration * edge_factor;
-                    } else {
-                        std::vector<typename network_type::index_helper_type::rtree_segments_value_type>
-                                nearest_segments;
-                        const point_type *segment_point = nullptr;
-                        distance_type segment_point_distance = geometry::default_float_type<distance_type>::v1;
-                        double duration = util::benchmark([&]() {
-                            // check if point is near a segment point first, if so, replace with it
-                            _network.query_segments(
-                                    boost::geometry::index::nearest(projection.second, 1), nearest_segments);
-                            if (not nearest_segments.empty()) {
-                                const auto &nearest_segment = nearest_segments.front().first;
-                                segment_point = &nearest_segment.first;
-                                segment_point_distance = geometry::point_distance(
-                                        nearest_segment.first, projection.second);
-                                auto tmp_distance = geometry::point_distance(
-                                        nearest_segment.second, projection.second);
-                                if (tmp_distance < segment_point_distance) {
-                                    segment_point_distance = tmp_distance;
-                                    segment_point = &nearest_segment.second;
-                                }
-                            }
-                        });
-                        if (segment_point != nullptr and
-                            not geometry::equals_points(*segment_point, projection.second)
-                            and segment_point_distance < 1e-4) {
-                            // if within one millimeter, replace point with found point, so "snap to network"
-                            projection.second = *segment_point;
-                            projection_distance = geometry::point_distance(projection.first, projection.second);
-                        }
-                        _index_duration = duration;
+                    if (edge_point != nullptr and
+                        not geometry::equals_points(*edge_point, projection.second) and
+                        edge_point_distance < 1e-4) {
+                        // if within one millimeter, replace point with found point, so "snap to original edge point"
+                        projection.second = *edge_point;
+                        projection_distance = geometry::point_distance(projection.first, projection.second);
                     }
 
                     using _rich_line_type = geometry::lazy_rich_line_type<point_type>;
-- 
2.43.0


From a28af0c72b732cff6baeb4e840a9a397b0400458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:51 +0000
Subject: [PATCH 34/34] fix: the combined candidate search never enlarged its
 radius

When none of the nearest roads lay within the radius, the doubled radius was applied
to the roads that the first radius had left, which were none, so the point stayed
without candidates. Every radius is applied to the nearest roads now, as documented
("automatically doubled each time when no candidates within given radius are found").
---
 src/library/include/matching/algorithm/candidate_search.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/library/include/matching/algorithm/candidate_search.hpp b/src/library/include/matching/algorithm/candidate_search.hpp
index f0ae5b6..f58ca6b 100644
--- a/src/library/include/matching/algorithm/candidate_search.hpp
+++ b/src/library/include/matching/algorithm/candidate_search.hpp
@@ -93,6 +93,9 @@ namespace map_matching_2::matching {
 
             if (match_settings.candidate_search == settings::CANDIDATE_SEARCH::COMBINED or
                 match_settings.candidate_search == settings::CANDIDATE_SEARCH::CIRCLE) {
+                // keep the nearest edges, a larger radius may contain what a smaller one does not
+                const auto nearest_result = edge_result;
+
                 bool found = false;
                 bool adaptive_radius = match_settings.adaptive_radius;
                 double current_radius = match_settings.radius;
@@ -119,6 +122,8 @@ namespace map_matching_2::matching {
                         // create bounding box with at least buffer_distance
                         const auto buffer = geometry::buffer_box(point, current_radius);
                         edge_result = _network.query_segments_unique(boost::geometry::index::intersects(buffer));
+                    } else {
+                        edge_result = nearest_result;
                     }
 
                     for (auto edge_it = edge_result.begin(); edge_it != edge_result.end();) {
-- 
2.43.0

