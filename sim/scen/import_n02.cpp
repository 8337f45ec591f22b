// N02: merging chains, dropping small components and duplicates keep the roads, on every backend.
#include "import_tables.hpp"

namespace {

    using namespace imp;
    using Line = std::vector<XY>;
    using Segment = std::pair<XY, XY>;

    std::map<Segment, long> segments(const Net &n, bool by_id = false, u64 id = 0) {
        std::map<Segment, long> m;
        for (auto &e : n.e) {
            if (by_id and e.id != id) continue;
            for (std::size_t i = 0; i + 1 < e.line.size(); ++i) if (e.line[i] != e.line[i + 1]) ++m[{e.line[i], e.line[i + 1]}];
        }
        return m;
    }

    void same_segments(const std::map<Segment, long> &a, const std::map<Segment, long> &b, const std::string &when) {
        for (auto &[s, n] : a) {
            auto f = b.find(s);
            const long m = f == b.end() ? 0 : f->second;
            if (m < n) sim::violation("road-lost", when + ": the road from " + show(s.first) + " to " + show(s.second) + " existed " + std::to_string(n) + " times, now " + std::to_string(m));
        }
        for (auto &[s, n] : b) {
            auto f = a.find(s);
            const long m = f == a.end() ? 0 : f->second;
            if (m < n) sim::violation("road-invented", when + ": the road from " + show(s.first) + " to " + show(s.second) + " existed " + std::to_string(m) + " times, now " + std::to_string(n));
        }
    }

    void ends_fit(const Net &n, const std::string &when) {
        for (auto &e : n.e) if (e.line.size() < 2 or e.line.front() != n.v[e.from].at or e.line.back() != n.v[e.to].at)
            sim::violation("ends-apart", when + ": an edge does not start and end at its nodes: " + canon(n, e).substr(0, 400));
    }

    // what can be reached from where; nodes are named by key
    template<typename Key>
    using Reach = std::map<Key, std::set<Key>>;
    template<typename Key, typename Name>
    Reach<Key> reach(const Net &n, Name name, const std::set<Key> &among) {
        std::map<Key, std::set<Key>> out;
        for (auto &e : n.e) out[name(n.v[e.from])].insert(name(n.v[e.to]));
        Reach<Key> r;
        for (auto &k : among) {
            std::set<Key> seen;
            std::vector<Key> todo{k};
            while (not todo.empty()) {
                const Key x = todo.back();
                todo.pop_back();
                for (auto &y : out[x]) if (seen.insert(y).second) todo.push_back(y);
            }
            auto &mine = r[k];
            for (auto &y : seen) if (among.count(y)) mine.insert(y);
        }
        return r;
    }

    std::string text(u64 id) { return std::to_string(id); }
    std::string text(const XY &p) { return show(p); }

    // paths between remaining nodes still exist; a node without a way back to itself may lose that (a loop at a removed node)
    template<typename Key, typename Name>
    void same_reach(const Net &before, const Net &after, Name name, const std::string &when) {
        std::set<Key> among;
        for (auto &v : after.v) among.insert(name(v));
        const auto a = reach<Key>(before, name, among), b = reach<Key>(after, name, among);
        for (auto &[k, to] : a) for (auto &y : to) if (not b.at(k).count(y)) sim::violation("unreachable", when + ": node " + text(y) + " can no longer be reached from node " + text(k));
        for (auto &[k, to] : b) for (auto &y : to) if (not a.at(k).count(y)) sim::violation("reachable", when + ": node " + text(y) + " can now be reached from node " + text(k));
    }

    // every edge as a whole, by where it is and not by what its nodes are called
    std::vector<std::string> whole(const Net &n, bool tags = true) {
        std::vector<std::string> r;
        for (auto &e : n.e) {
            std::string s = std::to_string(e.id);
            for (auto &p : e.line) s += show(p);
            r.push_back(tags ? s + canon_tags(e.tags) : s);
        }
        std::sort(r.begin(), r.end());
        return r;
    }

    void same_whole(const std::vector<std::string> &a, const std::vector<std::string> &b, const std::string &when) {
        std::vector<std::string> lost, extra;
        std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(lost));
        std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(extra));
        if (not lost.empty()) sim::violation("edge-lost", when + ": lost edge " + lost[0].substr(0, 400));
        if (not extra.empty()) sim::violation("edge-invented", when + ": unexpected edge " + extra[0].substr(0, 400));
    }

    // the nodes that remain are as they were
    void nodes_among(const Net &before, const Net &after, const std::string &when) {
        std::multiset<std::string> a;
        for (auto &v : before.v) a.insert(canon(v));
        for (auto &v : after.v) {
            auto f = a.find(canon(v));
            if (f == a.end()) sim::violation("node-changed", when + ": node " + canon(v) + " did not exist before");
            a.erase(f);
        }
    }

    void tags_kept(const Net &before, const Net &after, bool exact, const std::string &when) {
        std::map<Segment, std::set<Pair>> have;
        for (auto &e : after.e) for (std::size_t i = 0; i + 1 < e.line.size(); ++i) have[{e.line[i], e.line[i + 1]}].insert(e.tags.begin(), e.tags.end());
        for (auto &e : before.e) for (std::size_t i = 0; i + 1 < e.line.size(); ++i) {
            if (e.line[i] == e.line[i + 1]) continue;
            const auto &h = have[{e.line[i], e.line[i + 1]}];
            for (auto &t : e.tags) if (not h.count(t)) sim::violation("attribute-lost", when + ": the road from " + show(e.line[i]) + " to " + show(e.line[i + 1]) + " lost " + t.first + "=" + t.second);
        }
        if (not exact) return;
        std::map<u64, std::string> was;
        for (auto &e : before.e) was[e.id] = canon_tags(e.tags);
        for (auto &e : after.e) if (was[e.id] != canon_tags(e.tags))
            sim::violation("attribute-changed", when + ": road " + std::to_string(e.id) + " had " + was[e.id].substr(0, 200) + " and now has " + canon_tags(e.tags).substr(0, 200));
    }

    bool reversed(const Line &a, const Line &b) {
        return a.size() == b.size() and std::equal(a.begin(), a.end(), b.rbegin());
    }

    // can a node be left out: two roads meet here and nothing else (README: "simplify")
    struct Meeting { bool candidate{false}, merges{false}; };
    std::map<u64, Meeting> meetings(const Net &n, bool complete) {
        std::vector<std::vector<std::size_t>> in(n.v.size()), out(n.v.size());
        for (std::size_t i = 0; i < n.e.size(); ++i) out[n.e[i].from].push_back(i), in[n.e[i].to].push_back(i);
        std::map<u64, Meeting> r;
        for (std::size_t v = 0; v < n.v.size(); ++v) {
            Meeting m;
            if (in[v].size() == 1 and out[v].size() == 1) m.candidate = true;
            else if (in[v].size() == 2 and out[v].size() == 2) {
                auto back = [&](std::size_t i, std::size_t o) { return i != o and n.e[i].from == n.e[o].to and reversed(n.e[i].line, n.e[o].line); };
                m.candidate = (back(in[v][0], out[v][0]) and back(in[v][1], out[v][1])) or (back(in[v][0], out[v][1]) and back(in[v][1], out[v][0]));
            }
            if (m.candidate) for (auto i : in[v]) for (auto o : out[v]) {
                if (i == o or n.e[i].from == n.e[o].to) continue;
                if (complete or (n.e[i].id == n.e[o].id and canon_tags(n.e[i].tags) == canon_tags(n.e[o].tags))) m.merges = true;
            }
            r[n.v[v].id] = m;
        }
        return r;
    }

    bool unique_ids(const Net &n) {
        std::set<u64> s;
        for (auto &v : n.v) if (not s.insert(v.id).second) return false;
        return true;
    }

    void check_simplified(const Net &before, const Net &after, const std::string &mode, bool ids) {
        const std::string when = "simplify " + mode;
        if (mode == app::SIMPLIFY_NONE) { same_net(after, before, when + " (nothing to do)"); return; }
        const bool complete = mode == app::SIMPLIFY_ALL;
        nodes_among(before, after, when);
        ends_fit(after, when);
        same_segments(segments(before), segments(after), when);
        tags_kept(before, after, not complete, when);
        if (not complete) {
            std::set<u64> all;
            for (auto &e : before.e) all.insert(e.id);
            for (auto &e : after.e) if (not all.count(e.id)) sim::violation("edge-invented", when + ": there was no road " + std::to_string(e.id));
            for (u64 id : all) same_segments(segments(before, true, id), segments(after, true, id), when + ", road " + std::to_string(id));
        }
        if (not ids) return;
        same_reach<u64>(before, after, [](const NV &v) { return v.id; }, when);
        const auto a = meetings(before, complete), b = meetings(after, complete);
        for (auto &[id, m] : a) {
            auto f = b.find(id);
            if (f == b.end()) {
                if (not m.candidate) sim::violation("node-lost", when + ": node " + std::to_string(id) + " was removed although more than one road meets there");
            } else if (m.merges and f->second.merges)
                sim::violation("not-simplified", when + ": node " + std::to_string(id) + " was kept although only one road passes it");
        }
        if (before.v.size() != after.v.size()) sim::count("probe:simplified");
    }

    void check_connected(const Net &before, const Net &after) {
        const std::string when = "remove unconnected";
        std::vector<std::size_t> up(before.v.size());
        for (std::size_t i = 0; i < up.size(); ++i) up[i] = i;
        std::function<std::size_t(std::size_t)> top = [&](std::size_t i) { while (up[i] != i) i = up[i] = up[up[i]]; return i; };
        for (auto &e : before.e) up[top(e.from)] = top(e.to);
        std::map<std::size_t, std::size_t> size;
        for (std::size_t i = 0; i < up.size(); ++i) ++size[top(i)];
        std::size_t best = 0;
        for (auto &x : size) best = std::max(best, x.second);
        if (after.v.size() != best) sim::violation("wrong-component", when + ": " + std::to_string(after.v.size()) + " nodes remain, but the largest component has " + std::to_string(best));
        for (auto &x : size) {
            if (x.second != best) continue;
            Net want;
            std::map<std::size_t, std::size_t> at;
            for (std::size_t i = 0; i < before.v.size(); ++i) if (top(i) == x.first) at[i] = want.v.size(), want.v.push_back(before.v[i]);
            for (auto &e : before.e) if (top(e.from) == x.first) { want.e.push_back(e); want.e.back().from = at[e.from], want.e.back().to = at[e.to]; }
            std::vector<std::string> a, b;
            for (auto &v : want.v) a.push_back(canon(v));
            for (auto &v : after.v) b.push_back(canon(v));
            std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
            if (a != b) continue;
            same_net(after, want, "of the largest component");
            if (size.size() > 1) sim::count("probe:components");
            return;
        }
        if (best) sim::violation("wrong-component", when + ": the remaining nodes are not one of the largest components");
    }

    void check_unique_nodes(const Net &before, const Net &after, const std::string &mode) {
        const std::string when = "remove duplicate nodes, simplify " + mode;
        const bool complete = mode == app::SIMPLIFY_ALL;
        std::set<XY> spots;
        for (auto &v : after.v) if (not spots.insert(v.at).second) sim::violation("duplicate-node", when + ": two nodes remain at " + show(v.at));
        nodes_among(before, after, when);
        ends_fit(after, when);
        std::set<XY> was;
        for (auto &v : before.v) was.insert(v.at);
        if (was.size() != before.v.size()) sim::count("probe:duplicate-nodes");
        if (mode == app::SIMPLIFY_NONE) {
            for (auto &p : was) if (not spots.count(p)) sim::violation("node-lost", when + ": no node remains at " + show(p));
            same_whole(whole(before), whole(after), when);
            return;
        }
        same_segments(segments(before), segments(after), when);
        tags_kept(before, after, not complete, when);
        same_reach<XY>(before, after, [](const NV &v) { return v.at; }, when);
    }

    void check_unique_edges(const Net &before, const Net &after) {
        const std::string when = "remove duplicate edges";
        auto a = whole(before);
        std::vector<std::string> nodes_a, nodes_b;
        for (auto &v : before.v) nodes_a.push_back(canon(v));
        for (auto &v : after.v) nodes_b.push_back(canon(v));
        std::sort(nodes_a.begin(), nodes_a.end()), std::sort(nodes_b.begin(), nodes_b.end());
        if (nodes_a != nodes_b) sim::violation("node-changed", when + ": the nodes are not the same as before");
        const auto n = a.size();
        a.erase(std::unique(a.begin(), a.end()), a.end());
        if (a.size() != n) sim::count("probe:duplicate-edges");
        same_whole(a, whole(after), when);
        ends_fit(after, when);
    }

    void run(sim::Ctx &c) {
        auto r = c.rng("work");
        const auto &k = combo(static_cast<int>(c.param("combination", 0, COMBOS - 1)));
        const auto &plain = combo(k.geographic ? 0 : 4);
        const long scale = c.tier == "thorough" ? 3 : 1;
        std::filesystem::create_directory(c.dir + "/in");
        static const std::string formats[] = {app::FORMAT_OSM, app::FORMAT_OSM, app::FORMAT_OSM, app::FORMAT_SEATTLE, app::FORMAT_GISCUP};
        const std::string format = formats[c.param("format", 0, 4)];
        std::vector<std::string> files;
        auto put = [&](const std::string &name, const std::string &t) { files.push_back(c.dir + "/in/" + name); write_file(files.back(), t); };
        if (format == app::FORMAT_OSM) {
            RoadGen g{c.param("nodes", 1, 50 * scale), c.param("ways", 0, 30 * scale), c.param("span", 1, 12), c.param("keys", 1, 5), c.param("longvalues", 0, 2), c.param("short_ways", 0, 1), c.param("dup_spots", 0, 1) == 1};
            put("map.osm.opl", osm_file(g.make(c, r, car_profile(), 1, false), 0, true));
        } else {
            const Shape shape{static_cast<double>(c.param("chain", 0, 3)) * 0.2, static_cast<double>(c.param("back", 0, 3)) * 0.15, static_cast<double>(c.param("again", 0, 2)) * 0.1,
                    static_cast<double>(c.param("same_spot", 0, 2)) * 0.05};
            const Table t = make_table(c, r, k.geographic, format, c.param("nodes", 1, 50 * scale), c.param("edges", 0, 60 * scale), shape);
            int i = 0;
            for (auto &s : table_files(t, format)) put("set_" + std::to_string(i++) + ".txt", s);
        }
        auto d = prepare_settings(k, c.dir + "/out", files, format);
        static const std::string modes[] = {app::SIMPLIFY_ALL, app::SIMPLIFY_OSM_AWARE, app::SIMPLIFY_NONE};
        const std::string mode = modes[c.param("simplify", 0, 4) % 3];
        d.process.simplify = mode;
        d.process.remove_unconnected = c.param("remove_unconnected", 0, 1) == 1;
        d.process.remove_duplicate_nodes = c.param("remove_duplicate_nodes", 0, 1) == 1;
        d.process.remove_duplicate_edges = c.param("remove_duplicate_edges", 0, 1) == 1;
        d.srs._srs = format == app::FORMAT_OSM or k.geographic ? 4326 : 3857, d.srs._transform_srs = format == app::FORMAT_OSM and not k.geographic ? 3857 : -1;
        d.srs.correct({});
        d.files.initial_size = static_cast<std::size_t>(c.param("initial_kb", 24, 96)) * 1024;
        static const double full[] = {0, 0.001, 0.01, 0.05, 0.3};
        const double p = full[c.param("full", 0, 4)];

        auto prepare = [&](const Combo &which, const app::prepare_data &data, double faults) {
            std::vector<std::pair<std::string, Net>> all;
            which.prepare(data, [&](const char *stage, const Net &n) {
                sim::segment_plan(0);
                all.push_back({stage, n});
                const std::string s = stage;
                if (s != "edges" and s != "network") sim::segment_plan(faults);
            });
            return all;
        };
        std::vector<std::pair<std::string, Net>> got, want;
        sim::heap_check(true);
        scheduled(c, [&] {
            got = prepare(k, d, p);
            if (&k != &plain) {
                auto e = d;
                e.network.output = c.dir + "/plain";
                e.files.initial_size = 1 << 20;
                want = prepare(plain, e, 0);
            }
        });
        sim::check(got.size() == 6, "no-network", "the preparation ended without a network");
        const bool ids = unique_ids(got[0].second);
        const auto net = [&](int i) -> const Net & { return got[static_cast<std::size_t>(i)].second; };
        check_simplified(net(0), net(1), mode, ids);
        if (d.process.remove_unconnected) check_connected(net(1), net(2)); else same_net(net(2), net(1), "without removing components");
        if (d.process.remove_duplicate_nodes) check_unique_nodes(net(2), net(3), mode); else same_net(net(3), net(2), "without removing duplicate nodes");
        if (d.process.remove_duplicate_edges) check_unique_edges(net(3), net(4)); else same_net(net(4), net(3), "without removing duplicate edges");
        same_net(net(5), net(4), "in the compact network");
        for (std::size_t i = 0; i < want.size(); ++i) same_net(got[i].second, want[i].second, std::string{"after stage "} + want[i].first + ", compared with the same preparation in memory", "backend-differs");
        sim::state(sim::mix(sim::hash_str(mode), sim::mix(net(0).v.size() * 1000 + net(0).e.size(), net(4).v.size() * 1000 + net(4).e.size())));
        if (net(4).v.size() != net(0).v.size() or net(4).e.size() != net(0).e.size()) sim::nontrivial();
    }

    sim::Register reg{"N02", run, "OSM import, network_import (simplify, components, duplicate nodes and edges), import graphs and attributes in memory and in files, conversion to the compact network",
            "file system calls and segment allocations pass a fault seam; source files written by the scenario"};

}
