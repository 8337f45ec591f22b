// M01: attributes kept in files equal attributes kept in memory, wherever the files have to grow.
#include "core/sim.hpp"

#include <filesystem>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include <osmium/builder/osm_object_builder.hpp>
#include <osmium/memory/buffer.hpp>

#include "types/io/helper/tag_helper.hpp"

namespace {

    using namespace map_matching_2;
    using sim::u64;
    namespace st = io::memory_mapped::storage;
    using memory_t = io::memory_mapped::memory_types;
    using file_t = io::memory_mapped::file_types;

    using Pair = std::pair<std::string, std::string>;
    using Pairs = std::vector<Pair>;

    struct Model {
        std::map<u64, Pairs> nodes, edges;
        std::map<Pair, u64> ids;
        std::map<u64, Pair> known;
    };

    struct Op {
        int kind{0};
        u64 id{0}, other{0};
        Pairs tags;
    };

    const char *op_name(int k) {
        static const char *n[] = {"id", "set_node_tags", "set_edge_tags", "copy_node_tags", "copy_edge_tags", "clone_node_tags",
                "clone_edge_tags", "merge_edge_tags", "set_edge_tags(vector)", "copy from list"};
        return n[k];
    }

    std::string show(const Pairs &p) {
        std::string s = "[";
        for (auto &x : p) s += (s.size() > 1 ? " " : "") + x.first.substr(0, 12) + "=" + x.second.substr(0, 12);
        return s + "]";
    }

    template<typename H>
    Pairs read_pairs(const H &h, u64 id, bool nodes) {
        Pairs out;
        const auto &v = nodes ? h.node_tags(id) : h.edge_tags(id);
        if (v.size() > 10000) sim::violation("tags-damaged", "an element has " + std::to_string(v.size()) + " attributes");
        for (const auto t : v) out.push_back(h.tag(t));
        return out;
    }

    template<typename H>
    void compare(const H &h, const Model &m, u64 max_id, const char *when) {
        for (int e = 0; e < 2; ++e) {
            const auto &want = e == 0 ? m.nodes : m.edges;
            for (u64 id = 0; id <= max_id; ++id) {
                Pairs got;
                try {
                    got = read_pairs(h, id, e == 0);
                } catch (const std::exception &x) {
                    sim::violation("tags-differ", std::string{e == 0 ? "node " : "edge "} + std::to_string(id) + " has an unknown attribute " + when + ": " + x.what());
                }
                auto it = want.find(id);
                const Pairs exp = it == want.end() ? Pairs{} : it->second;
                if (got != exp)
                    sim::violation("tags-differ", std::string{e == 0 ? "node " : "edge "} + std::to_string(id) + " has " + show(got) + " instead of " + show(exp) + " " + when);
            }
        }
    }

    struct TagList {
        osmium::memory::Buffer buf{512, osmium::memory::Buffer::auto_grow::yes};
        explicit TagList(const Pairs &p) {
            {
                osmium::builder::TagListBuilder b{buf};
                for (auto &x : p) b.add_tag(x.first, x.second);
            }
            buf.commit();
        }
        const osmium::TagList &get() const { return buf.get<osmium::TagList>(0); }
    };

    // one operation on the store under test; the model follows afterwards
    template<typename H, typename O>
    void apply(H &h, const Op &op, const O &other, Model &m) {
        const TagList list{op.tags};
        const Pairs dedup = op.tags;
        auto put = [&](std::map<u64, Pairs> &t, u64 id, const Pairs &p) { if (not p.empty()) t.emplace(id, p); };
        auto learn = [&](const Pairs &p) { for (auto &x : p) m.ids.emplace(x, 0); };
        switch (op.kind) {
            case 0:
                for (auto &x : op.tags) {
                    const u64 a = h.id(x.first, x.second);
                    const u64 b = h.id(x.first, x.second);
                    sim::check(a == b, "tag-id-unstable", "the same attribute got two ids");
                    auto [it, fresh] = m.known.emplace(a, x);
                    sim::check(fresh or it->second == x, "tag-id-shared", "two attributes share the id " + std::to_string(a));
                    sim::check(h.tag(a) == x, "tag-id-wrong", "the id of " + show({x}) + " reads back as " + show({h.tag(a)}));
                }
                break;
            case 1: h.set_node_tags(op.id, list.get()); put(m.nodes, op.id, op.tags); break;
            case 2: h.set_edge_tags(op.id, list.get()); put(m.edges, op.id, op.tags); break;
            case 3: h.copy_node_tags(op.id, h.node_tags(op.other)); put(m.nodes, op.id, m.nodes.count(op.other) ? m.nodes[op.other] : Pairs{}); break;
            case 4: h.copy_edge_tags(op.id, h.edge_tags(op.other)); put(m.edges, op.id, m.edges.count(op.other) ? m.edges[op.other] : Pairs{}); break;
            case 5: h.clone_node_tags(op.id, other); put(m.nodes, op.id, read_pairs(other, op.id, true)); break;
            case 6: h.clone_edge_tags(op.id, other); put(m.edges, op.id, read_pairs(other, op.id, false)); break;
            case 7: {
                h.merge_edge_tags(op.id, op.other);
                if (op.id != op.other and m.edges.count(op.other)) {
                    if (m.edges.count(op.id)) {
                        auto &t = m.edges[op.id];
                        const Pairs had = t;
                        for (auto &x : m.edges[op.other]) if (std::find(had.begin(), had.end(), x) == had.end()) t.push_back(x);
                    } else m.edges[op.id] = m.edges[op.other];
                }
                break;
            }
            case 9: {
                std::vector<u64> ids;
                for (auto &x : op.tags) ids.push_back(h.id(x.first, x.second));
                h.copy_edge_tags(op.id, ids);
                put(m.edges, op.id, op.tags);
                break;
            }
            default: break;
        }
        learn(op.tags);
    }

    template<typename Helper>
    void drive(sim::Ctx &c, bool file_other) {
        auto r = c.rng("work");
        const long size = c.param("size_kb", 24, 48) * 1024;
        const long nops = c.param("ops", 5, c.tier == "thorough" ? 500 : 350);
        const long nkeys = c.param("keys", 1, 6), nvals = c.param("values", 1, 150), nids = c.param("ids", 1, 150);
        const long maxtags = c.param("maxtags", 1, 8);
        const long longv = c.param("longvalues", 0, 2);
        const bool faults = c.param("disk_faults", 0, 5) == 0;

        auto value = [&](long i) {
            std::string s = "v" + std::to_string(i);
            if (longv == 1 and i % 3 == 0) s += std::string(static_cast<std::size_t>(20 + i * 7 % 60), static_cast<char>('a' + i % 26));
            if (longv == 2) s += std::string(static_cast<std::size_t>(i * 13 % 200), static_cast<char>('a' + i % 26));
            if (i == 1) s = "";
            return s;
        };
        auto some_tags = [&](long lo) {
            Pairs p;
            const long n = r.range(lo, maxtags);
            for (long i = 0; i < n; ++i) p.push_back({"key" + std::to_string(r.below(static_cast<u64>(nkeys))), value(static_cast<long>(r.below(static_cast<u64>(nvals))))});
            return p;
        };

        // another store with ids of its own, source of cloned attributes
        std::unique_ptr<io::helper::import_tag_helper_type<memory_t>> mem_other = std::make_unique<io::helper::import_tag_helper_type<memory_t>>();
        std::unique_ptr<io::helper::import_tag_helper_type<file_t>> map_other;
        if (file_other) map_other = std::make_unique<io::helper::import_tag_helper_type<file_t>>(
                    io::helper::import_tag_helper_type<file_t>::tag_storage_type{c.dir + "/other", "tags.bin", st::DESTROY_AND_CREATE, 1 << 20, st::DESTROY_ON_CLOSE});
        for (long i = 0; i < nids; ++i) {
            const auto a = some_tags(0), b = some_tags(0);
            const TagList la{a}, lb{b};
            auto fill = [&](auto &o) {
                (void) o.id("only-in", "the-other-store" + std::to_string(i % 5));
                o.set_node_tags(static_cast<u64>(i), la.get());
                o.set_edge_tags(static_cast<u64>(i), lb.get());
            };
            if (map_other) fill(*map_other); else fill(*mem_other);
        }

        std::vector<Op> ops;
        for (long i = 0; i < nops; ++i) {
            Op o;
            static const int kinds[] = {0, 1, 1, 2, 2, 3, 4, 5, 5, 6, 6, 7, 7, 7, 9};
            o.kind = kinds[r.below(sizeof kinds / sizeof *kinds)];
            o.id = r.below(static_cast<u64>(nids));
            o.other = r.below(static_cast<u64>(nids));
            o.tags = some_tags(o.kind == 1 or o.kind == 2 ? 0 : 1);
            ops.push_back(o);
        }

        sim::heap_check(true);
        using S = typename Helper::tag_storage_type;
        Model m, before;
        bool aborted = false, finalized = false;
        {
            std::unique_ptr<Helper> h;
            try {
                h = std::make_unique<Helper>(S{c.dir + "/store", "tags.bin", st::DESTROY_AND_CREATE, static_cast<std::size_t>(size),
                        st::DO_NOT_DESTROY_ON_CLOSE, st::SHRINK_ON_CLOSE});
            } catch (const boost::interprocess::bad_alloc &) {
                sim::count("probe:too-small-to-create");
                return;
            }
            if (faults) {
                sim::IoPlan p;
                p.p_truncate_fail = 0.3;
                p.p_enospc = 0.3;
                p.p_mmap_fail = r.chance(0.5) ? 0.15 : 0;
                p.p_open_fail = r.chance(0.5) ? 0.15 : 0;
                p.only = "/store";
                sim::io_plan(p);
            }
            std::size_t last = h->size(), start = last;
            for (std::size_t i = 0; i < ops.size(); ++i) {
                if (not c.keep(i)) continue;
                before = m;
                try {
                    if (map_other) apply(*h, ops[i], *map_other, m);
                    else apply(*h, ops[i], *mem_other, m);
                } catch (const std::exception &x) {
                    if (faults and sim::io_failed()) { aborted = true; sim::count("probe:refused-after-disk-fault"); break; }
                    sim::violation("operation-failed", std::string{op_name(ops[i].kind)} + " failed without any disk fault (file size " +
                            std::to_string(h->size()) + "): " + x.what());
                }
                const std::size_t now = h->size();
                if (now != last) {
                    sim::count("growth", 1);
                    sim::state(sim::mix(static_cast<u64>(ops[i].kind), now / static_cast<std::size_t>(size)));
                    sim::nontrivial();
                    last = now;
                    compare(*h, m, static_cast<u64>(nids), "after the file grew");
                }
            }
            (void) start;
            if (not aborted) {
                compare(*h, m, static_cast<u64>(nids), "at the end");
                for (auto &[id, t] : m.known) sim::check(h->tag(id) == t, "tag-id-wrong", "an id reads back as another attribute");
                if (c.param("finalize", 0, 1)) { h->finalize(); finalized = true; compare(*h, m, static_cast<u64>(nids), "after finalizing"); }
            } else {
                // a store that reported a failure may be given up, closing it must still work
            }
            const bool hard = sim::io_failed();
            sim::io_reset();
            (void) hard;
        }
        if (aborted) return;
        // reopened after shrinking
        {
            Helper h{S{c.dir + "/store", "tags.bin", st::OPEN_READ_ONLY}};
            compare(h, m, static_cast<u64>(nids), "after reopening");
            for (auto &[id, t] : m.known) sim::check(h.tag(id) == t, "tag-id-wrong", "an id reads back as another attribute after reopening");
            sim::check(h.tag_storage().is_finalized() == finalized, "finalized-flag", "the reopened store forgot whether it was finalized");
            sim::count("probe:reopened");
        }
        sim::note(std::to_string(m.edges.size()));
    }

    void run(sim::Ctx &c) {
        const long type = c.param("allocator", 0, 1);
        const bool file_other = c.param("other_in_file", 0, 1) == 1;
        sim::IoPlan p;
        sim::io_plan(p);
        if (type == 0) drive<io::helper::import_tag_helper_type<file_t>>(c, file_other);
        else drive<io::helper::tag_helper_type<file_t>>(c, file_other);
    }

    sim::Register reg{"M01", run, "tag_helper, tag_storage, mmap containers, Boost.Interprocess file mapping",
            "file system calls pass a fault seam; attribute lists built by the scenario"};

}
