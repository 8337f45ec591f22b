// Networks in the research formats: generated tables, their files and the network they describe.
#pragma once
#include "import_util.hpp"

namespace imp {

    // a table of nodes and edges in one of the research formats
    struct Table {
        struct E { long id; std::size_t a, b; bool both; std::vector<XY> line; };
        std::vector<std::pair<long, XY>> nodes;
        std::vector<E> edges;
    };

    // the text of a coordinate is what counts
    inline double printed(double d) { return std::stod(num(d)); }

    // how often an edge continues the last one, goes back along it (with one point moved, or exactly), or repeats it
    struct Shape { double chain{0}, back{0}, again{0}, same_spot{0}; };

    inline Table make_table(sim::Ctx &c, sim::Rng &r, bool geographic, const std::string &format, long nn, long ne, const Shape &shape = {}) {
        Table t;
        const bool inner = format == app::FORMAT_SEATTLE or format == app::FORMAT_GISCUP;
        auto xy = [&]() -> XY {
            if (geographic) return {9.0 + static_cast<double>(r.below(1000000)) / 1e6, 48.0 + static_cast<double>(r.below(1000000)) / 1e6};
            return {1000000.0 + static_cast<double>(r.below(10000000)) / 100, 6000000.0 + static_cast<double>(r.below(10000000)) / 100};
        };
        u64 el = 0;
        for (long i = 0; i < nn; ++i) {
            XY at = xy();
            if (r.chance(shape.same_spot) and not t.nodes.empty()) at = t.nodes[r.below(t.nodes.size())].second;
            if (c.keep(el++)) t.nodes.push_back({format == app::FORMAT_ARC_NODE ? static_cast<long>(t.nodes.size()) : 100 + i * 3, at});
        }
        for (long i = 0; i < ne; ++i) {
            const u64 a = r.next(), b = r.chance(0.05) ? a : r.next();
            const bool both = r.chance(0.5);
            std::vector<XY> mid;
            const long n = r.range(0, 4);
            for (long k = 0; k < n; ++k) mid.push_back(xy());
            const double how = r.unit();
            const u64 pick = r.next();
            const XY moved = xy();
            if (not c.keep(el++) or t.nodes.empty()) continue;
            if (not t.edges.empty() and how < shape.back) {
                Table::E e = t.edges.back();
                std::swap(e.a, e.b), std::reverse(e.line.begin(), e.line.end());
                if (format != app::FORMAT_SEATTLE or pick % 8) e.id = format == app::FORMAT_ARC_NODE ? static_cast<long>(t.edges.size()) : 5000 + i * 7;
                if (pick % 4 and e.line.size() > 2) e.line[1 + pick / 4 % (e.line.size() - 2)] = moved;
                t.edges.push_back(std::move(e));
                continue;
            }
            if (not t.edges.empty() and how < shape.back + shape.again) {
                Table::E e = t.edges[pick % t.edges.size()];
                if (format != app::FORMAT_SEATTLE) e.id = format == app::FORMAT_ARC_NODE ? static_cast<long>(t.edges.size()) : 5000 + i * 7;
                t.edges.push_back(std::move(e));
                continue;
            }
            const u64 first = not t.edges.empty() and how > 1 - shape.chain ? t.edges.back().b : a % t.nodes.size();
            Table::E e{format == app::FORMAT_ARC_NODE ? static_cast<long>(t.edges.size()) : 5000 + i * 7, first, first == a % t.nodes.size() ? b % t.nodes.size() : (first + 1) % t.nodes.size(), format == app::FORMAT_SEATTLE and both, {}};
            e.line.push_back(t.nodes[e.a].second);
            if (inner) e.line.insert(e.line.end(), mid.begin(), mid.end());
            e.line.push_back(t.nodes[e.b].second);
            t.edges.push_back(std::move(e));
        }
        return t;
    }

    inline std::vector<std::string> table_files(const Table &t, const std::string &format) {
        std::string a, b, g;
        if (format == app::FORMAT_ARC_NODE) {
            for (auto &n : t.nodes) a += num(n.second.first) + " " + num(n.second.second) + "\n";
            for (auto &e : t.edges) b += std::to_string(e.a) + "\t" + std::to_string(e.b) + "\n";
            return {a, b};
        }
        if (format == app::FORMAT_SEATTLE) {
            a = "Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()\n";
            for (auto &e : t.edges) {
                a += std::to_string(e.id) + "\t" + std::to_string(t.nodes[e.a].first) + "\t" + std::to_string(t.nodes[e.b].first) + "\t" + (e.both ? "1" : "0") + "\t10.0\t" +
                        std::to_string(e.line.size()) + "\tLINESTRING(";
                for (std::size_t i = 0; i < e.line.size(); ++i) a += (i ? ", " : "") + num(e.line[i].first) + " " + num(e.line[i].second);
                a += ")\n";
            }
            return {a};
        }
        if (format == app::FORMAT_MELBOURNE) {
            a = "nodeId nodeName x y\n", b = std::to_string(t.edges.size()) + "\nid from to cost\n", g = "street names\n";
            for (auto &n : t.nodes) a += std::to_string(n.first) + " name" + std::to_string(n.first) + " " + num(n.second.first) + " " + num(n.second.second) + "\n";
            for (auto &e : t.edges) b += std::to_string(e.id) + " " + std::to_string(t.nodes[e.a].first) + " " + std::to_string(t.nodes[e.b].first) + " 1.0\n";
            return {a, b, g};
        }
        for (auto &n : t.nodes) a += std::to_string(n.first) + " " + num(n.second.second) + " " + num(n.second.first) + "\n";
        for (auto &e : t.edges) {
            b += std::to_string(e.id) + " " + std::to_string(t.nodes[e.a].first) + " " + std::to_string(t.nodes[e.b].first) + " 1\n";
            g += std::to_string(e.id) + "^name^type^" + std::to_string(e.line.size());
            for (auto &p : e.line) g += "^" + num(p.second) + "^" + num(p.first);
            g += "\n";
        }
        return {a, b, g};
    }

    inline Net table_network(const Table &t, const std::string &format, const std::function<XY(XY)> &project) {
        Net n;
        std::map<std::size_t, std::size_t> at;
        auto node = [&](std::size_t i) {
            auto [it, fresh] = at.emplace(i, n.v.size());
            if (fresh) n.v.push_back({static_cast<u64>(t.nodes[i].first), project(t.nodes[i].second), {}});
            return it->second;
        };
        if (format != app::FORMAT_SEATTLE) for (std::size_t i = 0; i < t.nodes.size(); ++i) node(i);      // the other formats list their nodes
        for (auto &e : t.edges) {
            const std::size_t a = node(e.a), b = node(e.b);
            std::vector<XY> line;
            for (auto &p : e.line) line.push_back(project(p));
            n.e.push_back({static_cast<u64>(e.id), a, b, line, {}});
            if (e.both) {
                std::reverse(line.begin(), line.end());
                n.e.push_back({static_cast<u64>(e.id), b, a, line, {}});
            }
        }
        return n;
    }

}
