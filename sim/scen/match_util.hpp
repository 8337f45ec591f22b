// Shared by the matching and comparing scenarios: CSV reading, options, grids, console capture.
#ifndef VERIF_MATCH_UTIL_HPP
#define VERIF_MATCH_UTIL_HPP

#include "core/sim.hpp"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <streambuf>
#include <string>
#include <utility>
#include <vector>

namespace scen {

    using sim::u64;
    using Row = std::vector<std::string>;

    inline std::string num(double v) { char b[40]; std::snprintf(b, sizeof b, "%.10g", v); return b; }

    // generated coordinates are exactly what ends up in the files
    inline double rnd(double v) { return std::strtod(num(v).c_str(), nullptr); }

    inline std::string slurp(const std::string &p, bool *found = nullptr) {
        std::ifstream in{p, std::ios::binary};
        if (found) *found = in.good();
        std::stringstream ss;
        ss << in.rdbuf();
        return ss.str();
    }

    inline void spit(const std::string &p, const std::string &s) { std::ofstream o{p, std::ios::binary}; o << s; }

    struct Csv { bool header_ok{true}; std::vector<Row> rows; std::string error; };

    // strict RFC4180 reader: every record ends with a line feed, quotes are balanced
    inline Csv parse_csv(const std::string &t) {
        Csv c;
        Row r;
        std::string f;
        std::size_t i = 0;
        const std::size_t n = t.size();
        bool line_open = false;
        while (i < n) {
            line_open = true;
            if (t[i] == '"') {
                ++i;
                bool closed = false;
                while (i < n) {
                    if (t[i] == '"') {
                        if (i + 1 < n and t[i + 1] == '"') { f.push_back('"'); i += 2; continue; }
                        ++i;
                        closed = true;
                        break;
                    }
                    f.push_back(t[i++]);
                }
                if (not closed) { c.error = "unterminated quote"; return c; }
                if (i < n and t[i] != ',' and t[i] != '\n' and t[i] != '\r') { c.error = "text after a closing quote"; return c; }
            } else {
                while (i < n and t[i] != ',' and t[i] != '\n' and t[i] != '\r') {
                    if (t[i] == '"') { c.error = "bare quote inside a field"; return c; }
                    f.push_back(t[i++]);
                }
            }
            if (i >= n) break;
            if (t[i] == ',') { r.push_back(f); f.clear(); ++i; continue; }
            if (t[i] == '\r') ++i;
            if (i < n and t[i] == '\n') ++i;
            r.push_back(f);
            f.clear();
            c.rows.push_back(r);
            r.clear();
            line_open = false;
        }
        if (line_open) c.error = "last record is not terminated";
        return c;
    }

    inline std::string join(const Row &r) { std::string s; for (auto &f : r) { if (not s.empty()) s += " | "; s += f; } return s; }

    // argv for the application's own option parser
    struct Args {
        std::vector<std::string> a{"map_matching_2"};
        Args &operator()(const std::string &k, const std::string &v) { a.push_back("--" + k); a.push_back(v); return *this; }
        Args &operator()(const std::string &k) { a.push_back("--" + k); return *this; }
        std::vector<char *> argv() { std::vector<char *> p; for (auto &s : a) p.push_back(s.data()); p.push_back(nullptr); return p; }
        std::string text() const { std::string s; for (std::size_t i = 1; i < a.size(); ++i) s += (i > 1 ? " " : "") + a[i]; return s; }
    };

    // console output of the simulated program; every write is a preemption point
    class Capture : public std::streambuf {
    public:
        Capture() : _old{std::cout.rdbuf(this)} {}
        ~Capture() override { std::cout.rdbuf(_old); }
        Capture(const Capture &) = delete;
        std::string text;
    protected:
        int overflow(int ch) override {
            sim::yield_point();
            if (ch != EOF) text.push_back(static_cast<char>(ch));
            return ch;
        }
        std::streamsize xsputn(const char *s, std::streamsize n) override {
            sim::yield_point();
            text.append(s, static_cast<std::size_t>(n));
            return n;
        }
        int sync() override { sim::yield_point(); return 0; }
    private:
        std::streambuf *_old;
    };

    class Mute : public std::streambuf {
    public:
        Mute() : _o1{std::cerr.rdbuf(this)}, _o2{std::clog.rdbuf(this)} {}
        ~Mute() override { std::cerr.rdbuf(_o1); std::clog.rdbuf(_o2); }
        Mute(const Mute &) = delete;
        std::string text;
    protected:
        int overflow(int ch) override { if (ch != EOF) text.push_back(static_cast<char>(ch)); return ch; }
        std::streamsize xsputn(const char *s, std::streamsize n) override { text.append(s, static_cast<std::size_t>(n)); return n; }
    private:
        std::streambuf *_o1, *_o2;
    };

    struct Pt { double x, y; };

    struct Grid {
        struct Node { Pt p; };
        struct Edge { int a, b; std::vector<Pt> line; };
        std::vector<Node> nodes;
        std::vector<Edge> edges;
        double unit{1};   // size of one metre in coordinates
        double ox{0}, oy{0};
    };

    inline Grid make_grid(sim::Rng &r, int w, int h, bool geographic, double offset = 0) {
        Grid g;
        g.unit = geographic ? 0.00001 : 1.0;
        g.ox = geographic ? 11.9 : offset;
        g.oy = geographic ? 50.3 : offset;
        for (int y = 0; y < h; ++y) {
            for (int x = 0; x < w; ++x) {
                g.nodes.push_back({{rnd(g.ox + g.unit * (100.0 * x + 20 * r.unit())), rnd(g.oy + g.unit * (100.0 * y + 20 * r.unit()))}});
            }
        }
        auto add = [&](int a, int b) {
            std::vector<Pt> l{g.nodes[static_cast<std::size_t>(a)].p};
            if (r.chance(0.2)) {
                auto &pa = g.nodes[static_cast<std::size_t>(a)].p;
                auto &pb = g.nodes[static_cast<std::size_t>(b)].p;
                l.push_back({rnd((pa.x + pb.x) / 2 + g.unit * 25 * (r.unit() - 0.5)), rnd((pa.y + pb.y) / 2 + g.unit * 25 * (r.unit() - 0.5))});
            }
            l.push_back(g.nodes[static_cast<std::size_t>(b)].p);
            std::vector<Pt> rl{l.rbegin(), l.rend()};
            if (not r.chance(0.15)) g.edges.push_back({a, b, l});
            if (not r.chance(0.15)) g.edges.push_back({b, a, rl});
        };
        for (int y = 0; y < h; ++y) {
            for (int x = 0; x < w; ++x) {
                const int i = y * w + x;
                if (x + 1 < w and not r.chance(0.1)) add(i, i + 1);
                if (y + 1 < h and not r.chance(0.1)) add(i, i + w);
            }
        }
        if (g.edges.empty()) add(0, 1);
        return g;
    }

    // roads with many points, some of which another road passes straight through; returns those points
    inline std::vector<Pt> densify(sim::Rng &r, Grid &g) {
        std::vector<Pt> met;
        const auto three = [](double v) { return std::round(v * 1000) / 1000; };
        const std::size_t n = g.edges.size();
        std::vector<bool> done(n, false);
        for (std::size_t i = 0; i < n; ++i) {
            if (done[i] or not r.chance(0.5) or met.size() >= (g.unit == 1 ? 4 : 2)) continue;
            done[i] = true;
            auto &l = g.edges[i].line;
            if (l.size() != 2) continue;
            const Pt a = l.front(), b = l.back();
            std::vector<Pt> d{a};
            const long k = r.range(3, r.chance(0.5) ? 24 : 6), cross = r.range(1, k - 1);
            for (long j = 1; j < k; ++j) {
                const double f = static_cast<double>(j) / static_cast<double>(k);
                Pt p{a.x + (b.x - a.x) * f + g.unit * 4 * (r.unit() - 0.5), a.y + (b.y - a.y) * f + g.unit * 4 * (r.unit() - 0.5)};
                p = g.unit == 1 ? Pt{three(p.x), three(p.y)} : Pt{rnd(p.x), rnd(p.y)};
                if (j == cross) {
                    const double side = b.x < a.x ? -g.unit : g.unit;   // a road does not run over itself
                    d.push_back({rnd(p.x - side), p.y});
                    d.push_back(p);
                    d.push_back({rnd(p.x + side), p.y});
                    met.push_back(p);
                } else d.push_back(p);
            }
            d.push_back(b);
            for (std::size_t o = i + 1; o < n; ++o) {
                if (g.edges[o].a == g.edges[i].b and g.edges[o].b == g.edges[i].a) { g.edges[o].line.assign(d.rbegin(), d.rend()); done[o] = true; }
            }
            g.edges[i].line = std::move(d);
        }
        // other roads along the same stretch, which have no point there
        for (auto &p : met) {
            if (not r.chance(0.7)) continue;
            const int u = static_cast<int>(r.below(g.nodes.size())), v = static_cast<int>(r.below(g.nodes.size()));
            if (u == v) continue;
            std::vector<Pt> l{g.nodes[static_cast<std::size_t>(u)].p, {rnd(p.x - 8 * g.unit), p.y}, {rnd(p.x + 8 * g.unit), p.y}};
            for (long k = r.range(0, r.chance(0.5) ? 20 : 2); k > 0; --k) l.push_back({rnd(p.x + g.unit * (8 + 2 * static_cast<double>(25 - k))), rnd(p.y + g.unit * 3 * r.unit())});
            l.push_back(g.nodes[static_cast<std::size_t>(v)].p);
            std::vector<Pt> rl{l.rbegin(), l.rend()};
            g.edges.push_back({u, v, l});
            g.edges.push_back({v, u, rl});
        }
        return met;
    }

    // a noisy drive through the grid
    inline std::vector<Pt> make_track(sim::Rng &r, const Grid &g, int maxpts) {
        std::vector<Pt> t;
        const int want = static_cast<int>(r.range(r.chance(0.1) ? 1 : 2, maxpts));
        std::size_t e = r.below(g.edges.size());
        double f = r.unit();
        while (static_cast<int>(t.size()) < want) {
            const auto &l = g.edges[e].line;
            const Pt a = l.front(), b = l.back();
            t.push_back({rnd(a.x + (b.x - a.x) * f + g.unit * 24 * (r.unit() - 0.5)), rnd(a.y + (b.y - a.y) * f + g.unit * 24 * (r.unit() - 0.5))});
            if (r.chance(0.08)) t.push_back(t.back());
            f += 0.15 + 0.6 * r.unit();
            while (f > 1) {
                f -= 1;
                std::vector<std::size_t> next;
                for (std::size_t k = 0; k < g.edges.size(); ++k) if (g.edges[k].a == g.edges[e].b) next.push_back(k);
                if (next.empty()) { if (r.chance(0.5)) return t; e = r.below(g.edges.size()); } else e = next[r.below(next.size())];
            }
        }
        return t;
    }

    // a random scheduling policy; heavier settings for rarer
    inline sim::Sched random_sched(sim::Rng &r) {
        sim::Sched s;
        s.pct = r.chance(0.3);
        s.p_switch = r.chance(0.2) ? 0.0 : 0.02 + 0.5 * r.unit();
        s.p_mem = r.chance(0.5) ? 0.0 : (r.chance(0.5) ? 0.00002 : 0.0005) * (0.2 + r.unit());
        s.p_spurious = r.chance(0.6) ? 0.0 : 0.05;
        s.p_stall = r.chance(0.7) ? 0.0 : 0.01;
        s.stall_ns = 2'000'000;
        s.max_steps = sim::steps() + 600'000'000;
        return s;
    }

}

#endif
