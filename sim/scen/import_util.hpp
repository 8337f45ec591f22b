// Shared by the preparation scenarios: generated source files with the network they describe, and comparisons.
#pragma once
#include "import_api.hpp"

#include <algorithm>
#include <cstdio>
#include <filesystem>
#include <map>
#include <set>
#include <string>
#include <vector>

#include <unistd.h>
#include <sys/wait.h>

namespace imp {

    inline std::string num(double d) { char b[40]; std::snprintf(b, sizeof b, "%.17g", d); return b; }
    inline std::string show(const XY &p) { return "(" + num(p.first) + " " + num(p.second) + ")"; }

    inline std::string canon_tags(Pairs t) {
        std::sort(t.begin(), t.end());
        std::string s = "{";
        for (auto &x : t) s += x.first + "=" + x.second + ";";
        return s + "}";
    }
    inline std::string canon(const NV &v) { return std::to_string(v.id) + " " + show(v.at) + " " + canon_tags(v.tags); }
    inline std::string canon(const Net &n, const NE &e) {
        std::string s = std::to_string(e.id) + " from " + std::to_string(n.v[e.from].id) + show(n.v[e.from].at) + " to " + std::to_string(n.v[e.to].id) + show(n.v[e.to].at) + " along";
        for (auto &p : e.line) s += show(p);
        return s + " " + canon_tags(e.tags);
    }

    // the same network, whatever the order of its parts
    inline void same_net(const Net &got, const Net &want, const std::string &when, const char *kind = "network-differs") {
        auto diff = [&](const char *what, std::vector<std::string> a, std::vector<std::string> b) {
            std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
            if (a == b) return;
            std::vector<std::string> extra, lost;
            std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(extra));
            std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(lost));
            sim::violation(kind, std::to_string(a.size()) + " " + what + " instead of " + std::to_string(b.size()) + " " + when +
                    (lost.empty() ? "" : "; missing " + lost[0].substr(0, 300)) + (extra.empty() ? "" : "; unexpected " + extra[0].substr(0, 300)));
        };
        std::vector<std::string> a, b;
        for (auto &v : got.v) a.push_back(canon(v));
        for (auto &v : want.v) b.push_back(canon(v));
        diff("nodes", std::move(a), std::move(b));
        a.clear(), b.clear();
        for (auto &e : got.e) a.push_back(canon(got, e));
        for (auto &e : want.e) b.push_back(canon(want, e));
        diff("edges", std::move(a), std::move(b));
    }

    inline void write_file(const std::string &path, const std::string &text) {
        FILE *f = std::fopen(path.c_str(), "wb");
        if (not f or std::fwrite(text.data(), 1, text.size(), f) != text.size() or std::fclose(f)) std::abort();
    }

    // ------------------------------------------------------------------ OpenStreetMap data
    struct Osm {
        bool node{true};
        long id{0};
        bool visible{true};
        long lon{0}, lat{0};            // 1e-7 degree
        Pairs tags;
        std::vector<long> refs;
        int file{0};
    };

    inline double deg(long x) { return static_cast<double>(x) / 10000000.0; }
    inline std::string deg_text(long x) {
        char b[40];
        std::snprintf(b, sizeof b, "%s%ld.%07ld", x < 0 ? "-" : "", std::labs(x) / 10000000, std::labs(x) % 10000000);
        return b;
    }
    inline std::string xml_text(const std::string &s) {
        std::string o;
        for (char c : s) {
            if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;";
            else o += c;
        }
        return o;
    }
    inline std::string opl_text(const std::string &s) {
        std::string o;
        for (unsigned char c : s) {
            if (c == ' ' or c == ',' or c == '=' or c == '@' or c == '%' or c == '\n' or c == '\r' or c == '\t') {
                char b[8];
                std::snprintf(b, sizeof b, "%%%x%%", c);
                o += b;
            } else o += static_cast<char>(c);
        }
        return o;
    }

    inline std::string osm_file(const std::vector<Osm> &els, int file, bool opl) {
        std::string s;
        if (not opl) s = "<?xml version='1.0' encoding='UTF-8'?>\n<osm version=\"0.6\" generator=\"sim\">\n";
        for (auto &e : els) {
            if (e.file != file) continue;
            const std::string id = std::to_string(e.id);
            if (opl) {
                s += (e.node ? "n" : "w") + id + " v1 d" + (e.visible ? "V" : "D") + " c1 t2020-01-01T00:00:00Z i1 uu T";
                for (std::size_t i = 0; i < e.tags.size(); ++i) s += (i ? "," : "") + opl_text(e.tags[i].first) + "=" + opl_text(e.tags[i].second);
                if (e.node) s += " x" + deg_text(e.lon) + " y" + deg_text(e.lat);
                else {
                    s += " N";
                    for (std::size_t i = 0; i < e.refs.size(); ++i) s += (i ? ",n" : "n") + std::to_string(e.refs[i]);
                }
                s += "\n";
            } else {
                const std::string vis = e.visible ? "" : " visible=\"false\"";
                if (e.node) s += "<node id=\"" + id + "\" version=\"1\"" + vis + " lat=\"" + deg_text(e.lat) + "\" lon=\"" + deg_text(e.lon) + "\">";
                else s += "<way id=\"" + id + "\" version=\"1\"" + vis + ">";
                for (long r : e.refs) s += "<nd ref=\"" + std::to_string(r) + "\"/>";
                for (auto &t : e.tags) s += "<tag k=\"" + xml_text(t.first) + "\" v=\"" + xml_text(t.second) + "\"/>";
                s += e.node ? "</node>\n" : "</way>\n";
            }
        }
        if (not opl) s += "</osm>\n";
        return s;
    }

    // which ways become roads: the documented car profile, or rules "default|result,key[=value]|..."
    struct Rule { bool result; std::string key; bool has_value; std::string value; };
    struct Rules {
        bool def{false};
        std::vector<Rule> rules;
        bool match(const Pair &t) const {
            for (auto &r : rules) if (r.key == t.first and (not r.has_value or r.value == t.second)) return r.result;
            return def;
        }
        std::string text() const {
            std::string s = def ? "true" : "false";
            for (auto &r : rules) s += std::string{"|"} + (r.result ? "true" : "false") + "," + r.key + (r.has_value ? "=" + r.value : "");
            return s;
        }
    };
    struct Profile { Rules query, filter, oneway, reverse; };
    inline Profile car_profile() {
        Profile p;
        for (auto v : {"footway", "pedestrian", "steps", "bridleway", "construction", "cycleway", "path", "bus_guideway", "platform"})
            p.query.rules.push_back({false, "highway", true, v});
        p.query.rules.push_back({true, "highway", false, ""});
        p.filter.def = true;
        for (auto v : {"yes", "true", "1"}) p.oneway.rules.push_back({true, "oneway", true, v});
        p.oneway.rules.push_back({true, "junction", true, "roundabout"});
        p.oneway.rules.push_back({true, "highway", true, "motorway"});
        for (auto v : {"-1", "reverse"}) p.reverse.rules.push_back({true, "oneway", true, v});
        return p;
    }

    // the network the files describe, read in the order given
    template<typename Project>
    Net osm_network(const std::vector<Osm> &els, int files, const Profile &p, Project project) {
        struct N { XY at; Pairs tags; long vertex{-1}; };
        std::map<long, N> nodes;
        std::map<long, Pairs> way_tags;
        Net net;
        for (int f = 0; f < files; ++f) for (auto &e : els) {
            if (e.file != f or not e.visible) continue;
            if (e.node) {
                nodes.emplace(e.id, N{project(XY{deg(e.lon), deg(e.lat)}), e.tags});
                continue;
            }
            const bool wanted = std::any_of(e.tags.begin(), e.tags.end(), [&](auto &t) { return p.query.match(t); }) and
                    std::all_of(e.tags.begin(), e.tags.end(), [&](auto &t) { return p.filter.match(t); });
            if (not wanted) continue;
            for (long r : e.refs) {
                auto n = nodes.find(r);
                if (n == nodes.end() or n->second.vertex >= 0) continue;
                n->second.vertex = static_cast<long>(net.v.size());
                net.v.push_back({static_cast<u64>(r), n->second.at, n->second.tags});
            }
            const bool one = std::any_of(e.tags.begin(), e.tags.end(), [&](auto &t) { return p.oneway.match(t); });
            const bool rev = std::any_of(e.tags.begin(), e.tags.end(), [&](auto &t) { return p.reverse.match(t); });
            for (std::size_t i = 0; i + 1 < e.refs.size(); ++i) {
                auto a = nodes.find(e.refs[i]), b = nodes.find(e.refs[i + 1]);
                if (a == nodes.end() or b == nodes.end()) continue;
                if (not e.tags.empty()) way_tags.emplace(e.id, e.tags);
                auto edge = [&](const N &x, const N &y) {
                    net.e.push_back({static_cast<u64>(e.id), static_cast<std::size_t>(x.vertex), static_cast<std::size_t>(y.vertex), {x.at, y.at}, {}});
                };
                if (not one or not rev) edge(a->second, b->second);
                if (not one or rev) edge(b->second, a->second);
            }
        }
        for (auto &e : net.e) e.tags = way_tags[static_cast<long>(e.id)];
        return net;
    }

    // roads on a lattice, so that chains, crossings, dead ends, islands and nodes on the same spot all occur
    struct RoadGen {
        long nodes, ways, span, keys, longv, zero;
        bool dup_spots;
        std::vector<Osm> make(sim::Ctx &c, sim::Rng &r, const Profile &, int files, bool shuffled) const {
            std::vector<Osm> els;
            const long step = 100000;      // 0.01 degree
            auto value = [&](long i) {
                std::string s = "v" + std::to_string(i);
                if (longv == 1 and i % 3 == 0) s += std::string(static_cast<std::size_t>(10 + i * 7 % 60), static_cast<char>('a' + i % 26));
                if (longv == 2) s += " <&\" =,@%" + std::string(static_cast<std::size_t>(i * 13 % 200), static_cast<char>('a' + i % 26));
                return s;
            };
            auto extra = [&](Pairs &t) {
                const long n = r.range(0, 2);
                for (long i = 0; i < n; ++i) {
                    const std::string k = "k" + std::to_string(r.below(static_cast<u64>(keys)));
                    if (std::none_of(t.begin(), t.end(), [&](auto &x) { return x.first == k; })) t.push_back({k, value(static_cast<long>(r.below(40)))});
                }
            };
            std::map<long, std::pair<long, long>> spot;
            std::set<std::pair<long, long>> taken;
            u64 el = 0;
            for (long i = 0; i < nodes; ++i) {
                Osm o;
                const bool use = c.keep(el++);
                o.id = i + 1;
                std::pair<long, long> at{r.range(0, span), r.range(0, span)};
                if (r.chance(0.02)) o.id = 1 + static_cast<long>(r.below(static_cast<u64>(nodes)));
                if (r.chance(0.02)) o.id = -o.id;
                o.visible = not r.chance(0.02);
                if (not dup_spots) for (int k = 0; k < 50 and taken.count(at); ++k) at = {r.range(0, 4 * span), r.range(0, 4 * span)};
                taken.insert(at);
                o.lon = 90000000 + at.first * step, o.lat = 480000000 + at.second * step;
                if (r.chance(0.3)) o.tags.push_back({"highway", "crossing"});
                if (r.chance(0.3)) extra(o.tags);
                o.file = static_cast<int>(r.below(static_cast<u64>(files)));
                if (use) els.push_back(o), spot.emplace(o.id, at);
            }
            static const char *kinds[] = {"residential", "primary", "motorway", "residential", "footway", "path", "service", "residential"};
            static const char *ones[] = {"yes", "true", "1", "-1", "reverse", "no"};
            for (long i = 0; i < ways; ++i) {
                Osm o;
                o.node = false;
                const bool use = c.keep(el++);
                o.id = 1000 + i;
                if (r.chance(0.03)) o.id = 1000 + static_cast<long>(r.below(static_cast<u64>(ways)));
                o.visible = not r.chance(0.02);
                if (r.chance(0.95)) o.tags.push_back({"highway", kinds[r.below(8)]});
                if (r.chance(0.25)) o.tags.push_back({"oneway", ones[r.below(6)]});
                if (r.chance(0.05)) o.tags.push_back({"junction", "roundabout"});
                extra(o.tags);
                long n = r.range(2, 7);
                if (r.chance(static_cast<double>(zero) * 0.05)) n = r.range(0, 1);
                long at = 1 + static_cast<long>(r.below(static_cast<u64>(nodes)));
                for (long k = 0; k < n; ++k) {
                    o.refs.push_back(at);
                    const u64 how = r.below(20);
                    if (how < 9) at = 1 + at % nodes;                                              // along
                    else if (how < 17) at = 1 + static_cast<long>(r.below(static_cast<u64>(nodes)));
                    else if (how == 17) at = nodes + 5;                                            // not in the data
                    else if (how == 18 and o.refs.size() > 1) at = o.refs.front();                 // closed
                }
                o.file = static_cast<int>(r.below(static_cast<u64>(files)));
                if (r.chance(0.15) and not els.empty() and not els.back().node) {                  // a copy, or the way back
                    o.refs = els.back().refs;
                    if (r.chance(0.5)) std::reverse(o.refs.begin(), o.refs.end());
                    if (r.chance(0.3)) o.id = els.back().id, o.tags = els.back().tags;
                }
                if (use) els.push_back(o);
            }
            if (shuffled) for (std::size_t i = els.size(); i > 1; --i) std::swap(els[i - 1], els[r.below(i)]);
            return els;
        }
    };

    // ------------------------------------------------------------------ running a preparation where it may die
    constexpr int REFUSED = 78;
    enum class End { done, refused, crashed };

    // fn runs in a process of its own; an exception, or std::terminate, is a refusal
    inline End isolated(const std::function<void()> &fn, bool may_refuse = false) {
        const int st = sim::in_child([&] {
            static bool allowed;
            allowed = may_refuse;
            std::set_terminate([] {
                if (not allowed and not sim::io_failed()) sim::violation("terminated", "the program terminated without any fault");
                sim::count("probe:terminated");
                _exit(REFUSED);
            });
            try {
                fn();
            } catch (const std::exception &x) {
                if (not may_refuse and not sim::io_failed()) sim::violation("refused-without-fault", std::string{"failed without any fault: "} + x.what());
                sim::count("probe:refused");
                _exit(REFUSED);
            }
        });
        if (WIFEXITED(st) and WEXITSTATUS(st) == 0) return End::done;
        if (WIFEXITED(st) and WEXITSTATUS(st) == REFUSED) return End::refused;
        if (WIFEXITED(st) and WEXITSTATUS(st) == sim::CRASH_EXIT) return End::crashed;
        _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 9);       // a violation was reported by the child
    }

    sim::Sched draw_sched(sim::Ctx &c);
    // reading OpenStreetMap data starts threads: the simulated scheduler is running while fn runs
    void scheduled(sim::Ctx &c, const std::function<void()> &fn);

}
