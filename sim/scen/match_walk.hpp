// A matched line as a drive: an independent reader of result geometries and a walker over the generated network.
#ifndef VERIF_MATCH_WALK_HPP
#define VERIF_MATCH_WALK_HPP

#include "match_util.hpp"

#include <optional>

namespace scen {

    using Lines = std::vector<std::vector<Pt>>;

    // LINESTRING or MULTILINESTRING; nothing when it is neither
    inline std::optional<Lines> read_wkt(const std::string &t) {
        std::size_t i = 0;
        auto ws = [&] { while (i < t.size() and t[i] == ' ') ++i; };
        auto word = [&](const char *w) { const std::size_t n = std::string{w}.size(); if (t.compare(i, n, w)) return false; i += n; ws(); return true; };
        auto line = [&](std::vector<Pt> &l) {
            if (word("EMPTY")) return true;
            if (i >= t.size() or t[i] != '(') return false;
            ++i;
            ws();
            if (i < t.size() and t[i] == ')') { ++i; ws(); return true; }
            for (;;) {
                char *e{};
                Pt p{};
                p.x = std::strtod(t.c_str() + i, &e);
                if (e == t.c_str() + i) return false;
                i = static_cast<std::size_t>(e - t.c_str());
                p.y = std::strtod(t.c_str() + i, &e);
                if (e == t.c_str() + i) return false;
                i = static_cast<std::size_t>(e - t.c_str());
                ws();
                if (not std::isfinite(p.x) or not std::isfinite(p.y)) return false;
                l.push_back(p);
                if (i < t.size() and t[i] == ',') { ++i; ws(); continue; }
                break;
            }
            if (i >= t.size() or t[i] != ')') return false;
            ++i;
            ws();
            return true;
        };
        Lines out;
        if (word("MULTILINESTRING")) {
            if (word("EMPTY")) return i == t.size() ? std::optional{out} : std::nullopt;
            if (i >= t.size() or t[i] != '(') return std::nullopt;
            ++i;
            ws();
            if (i < t.size() and t[i] == ')') { ++i; ws(); return i == t.size() ? std::optional{out} : std::nullopt; }
            for (;;) {
                out.emplace_back();
                if (not line(out.back())) return std::nullopt;
                if (i < t.size() and t[i] == ',') { ++i; ws(); continue; }
                break;
            }
            if (i >= t.size() or t[i] != ')') return std::nullopt;
            ++i;
            ws();
        } else if (word("LINESTRING")) {
            out.emplace_back();
            if (not line(out.back())) return std::nullopt;
        } else return std::nullopt;
        return i == t.size() ? std::optional{out} : std::nullopt;
    }

    // distances in metres on the small generated area
    struct Plane {
        double kx{1}, ky{1};
        Plane() = default;
        Plane(const Grid &g, bool geographic) {
            if (geographic) { ky = 111'240; kx = 111'320 * std::cos((g.oy + 0.002) * M_PI / 180) * 1.0; }
        }
        [[nodiscard]] Pt operator()(Pt p) const { return {p.x * kx, p.y * ky}; }
        [[nodiscard]] double dist(Pt a, Pt b) const { return std::hypot((a.x - b.x) * kx, (a.y - b.y) * ky); }
        [[nodiscard]] double length(const Lines &ls) const {
            double s = 0;
            for (auto &l : ls) for (std::size_t i = 1; i < l.size(); ++i) s += dist(l[i - 1], l[i]);
            return s;
        }
        // distance of p from a-b and where along it
        [[nodiscard]] std::pair<double, double> project(Pt p, Pt a, Pt b) const {
            const double dx = (b.x - a.x) * kx, dy = (b.y - a.y) * ky, px = (p.x - a.x) * kx, py = (p.y - a.y) * ky;
            const double q = dx * dx + dy * dy;
            const double f = q > 0 ? std::clamp((px * dx + py * dy) / q, 0.0, 1.0) : 0;
            return {std::hypot(px - f * dx, py - f * dy), f};
        }
    };

    // follows a polyline along edges in their direction; turning round is allowed where the way back exists
    class Walker {
    public:
        const double tol;

        Walker(const Grid &g, const Plane &plane, double tolerance) : tol{tolerance}, _g{g}, _p{plane} {
            for (std::size_t e = 0; e < g.edges.size(); ++e) {
                auto &l = g.edges[e].line;
                std::vector<double> at{0};
                for (std::size_t i = 1; i < l.size(); ++i) at.push_back(at.back() + plane.dist(l[i - 1], l[i]));
                _at.push_back(at);
                int twin = -1;
                for (std::size_t k = 0; k < g.edges.size(); ++k) if (g.edges[k].a == g.edges[e].b and g.edges[k].b == g.edges[e].a) twin = static_cast<int>(k);
                _twin.push_back(twin);
            }
        }

        [[nodiscard]] double length(std::size_t e) const { return _at[e].back(); }

        using Place = std::pair<std::size_t, double>;   // edge, metres along it

        [[nodiscard]] std::vector<Place> places(Pt p) const {
            std::vector<Place> out;
            for (std::size_t e = 0; e < _g.edges.size(); ++e) {
                auto &l = _g.edges[e].line;
                double last = -1;
                for (std::size_t i = 1; i < l.size(); ++i) {
                    auto [d, f] = _p.project(p, l[i - 1], l[i]);
                    if (d > tol) continue;
                    const double o = _at[e][i - 1] + f * (_at[e][i] - _at[e][i - 1]);
                    if (last >= 0 and std::fabs(o - last) < 2 * tol) continue;
                    out.emplace_back(e, o);
                    last = o;
                }
            }
            return out;
        }

        // distance to the nearest road
        [[nodiscard]] double beside(Pt p) const {
            double best = 1e300;
            for (auto &e : _g.edges) for (std::size_t i = 1; i < e.line.size(); ++i) best = std::min(best, _p.project(p, e.line[i - 1], e.line[i]).first);
            return best;
        }

        // index of the first point that cannot be reached by driving, or the number of points
        [[nodiscard]] std::size_t follow(const std::vector<Pt> &line, std::vector<std::size_t> *edges = nullptr) const {
            if (line.empty()) return 0;
            std::vector<Place> now = places(line[0]);
            if (now.empty()) return 0;
            _spread(now);
            if (edges) edges->clear();
            for (std::size_t k = 1; k < line.size(); ++k) {
                if (_p.dist(line[k - 1], line[k]) <= tol) {
                    // no movement worth mentioning
                    std::vector<Place> to = places(line[k]), next;
                    for (auto &n : to) for (auto &o : now) if (n.first == o.first and std::fabs(n.second - o.second) <= 4 * tol) { next.push_back(n); break; }
                    if (next.empty()) return k;
                    now = next;
                    _spread(now);
                    if (edges) for (auto &n : now) edges->push_back(n.first);
                    continue;
                }
                std::vector<Place> next;
                for (auto &n : places(line[k])) {
                    for (auto &o : now) {
                        if (n.first != o.first or n.second < o.second - 2 * tol) continue;
                        // the straight line from here to there stays on this edge
                        bool straight = true;
                        auto &l = _g.edges[n.first].line;
                        for (std::size_t i = 1; i + 1 < l.size(); ++i) {
                            if (_at[n.first][i] > o.second + tol and _at[n.first][i] < n.second - tol and _p.project(l[i], line[k - 1], line[k]).first > 2 * tol) straight = false;
                        }
                        if (std::fabs((n.second - o.second) - _p.dist(line[k - 1], line[k])) > 6 * tol) straight = false;
                        if (straight) { next.push_back(n); if (edges) edges->push_back(n.first); break; }
                    }
                }
                if (next.empty()) return k;
                now = next;
                _spread(now);
            }
            return line.size();
        }

        // metres between two nodes, infinite if there is no way
        [[nodiscard]] double between(int from, int to) const {
            auto it = _dist.find(from);
            if (it == _dist.end()) {
                std::vector<double> d(_g.nodes.size(), 1e300);
                std::set<std::pair<double, int>> q{{0, from}};
                d[static_cast<std::size_t>(from)] = 0;
                while (not q.empty()) {
                    auto [x, n] = *q.begin();
                    q.erase(q.begin());
                    if (x > d[static_cast<std::size_t>(n)]) continue;
                    for (std::size_t e = 0; e < _g.edges.size(); ++e) {
                        if (_g.edges[e].a != n) continue;
                        double &t = d[static_cast<std::size_t>(_g.edges[e].b)];
                        if (x + length(e) < t) { t = x + length(e); q.insert({t, _g.edges[e].b}); }
                    }
                }
                it = _dist.emplace(from, d).first;
            }
            return it->second[static_cast<std::size_t>(to)];
        }

        // where on this edge a point lies
        [[nodiscard]] double offset(std::size_t e, Pt p) const {
            auto &l = _g.edges[e].line;
            double best = 1e300, o = 0;
            for (std::size_t i = 1; i < l.size(); ++i) {
                auto [d, f] = _p.project(p, l[i - 1], l[i]);
                if (d < best) { best = d; o = _at[e][i - 1] + f * (_at[e][i] - _at[e][i - 1]); }
            }
            return o;
        }

    private:
        const Grid &_g;
        const Plane &_p;
        mutable std::map<int, std::vector<double>> _dist;
        std::vector<std::vector<double>> _at;
        std::vector<int> _twin;

        // where one can go on from these places without moving
        void _spread(std::vector<Place> &v) const {
            std::set<int> nodes;
            const std::size_t n = v.size();
            for (std::size_t i = 0; i < n; ++i) {
                auto [e, o] = v[i];
                const double len = _at[e].back();
                if (o <= 2 * tol) nodes.insert(_g.edges[e].a);
                if (o >= len - 2 * tol) nodes.insert(_g.edges[e].b);
                if (_twin[e] >= 0) v.emplace_back(static_cast<std::size_t>(_twin[e]), len - o);
            }
            for (int nd : nodes) {
                for (std::size_t e = 0; e < _g.edges.size(); ++e) {
                    if (_g.edges[e].a == nd) v.emplace_back(e, 0);
                    if (_g.edges[e].b == nd) v.emplace_back(e, _at[e].back());
                }
            }
        }
    };

}

#endif
