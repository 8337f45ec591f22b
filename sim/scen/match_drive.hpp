// S08: every result is a drive on the network, however the matching ended.
#include "match_impl.hpp"
#include "match_walk.hpp"

namespace scen {

    template<typename CS>
    struct DriveScenario : MatchScenario<CS> {
        using S = MatchScenario<CS>;
        using typename S::Track;
        using typename S::Out;
        static constexpr bool geographic = S::geographic;

        static std::string text(const std::vector<Pt> &l) { std::string s; for (auto &p : l) s += (s.empty() ? "" : ", ") + num(p.x) + " " + num(p.y); return s; }

        static bool near_length(double have, double want) { return std::fabs(have - want) <= (geographic ? 0.5 : 0.05) + want * (geographic ? 0.004 : 1e-6); }

        static void run(sim::Ctx &c) {
            sim::Rng r = c.rng("match");
            const int threads = static_cast<int>(c.param("threads", 1, 4));
            const int ntracks = static_cast<int>(c.param("tracks", 1, 5));
            const int maxpts = static_cast<int>(c.param("points", 2, 8));
            const int gw = static_cast<int>(c.param("grid_w", 2, 5)), gh = static_cast<int>(c.param("grid_h", 2, 5));
            const int model = static_cast<int>(c.param("model", 0, 4));
            const int limits = static_cast<int>(c.param("limits", 0, 2));   // 0 no time limit, 1 loose, 2 tight
            const int skip = static_cast<int>(c.param("skip_errors", 0, 1)), joins = static_cast<int>(c.param("join_merges", 0, 1));
            const int turns = static_cast<int>(c.param("edge_turns", 0, 2)), whole = static_cast<int>(c.param("export_edges", 0, 3)) == 0;
            const int tidy = static_cast<int>(c.param("tidy", 0, 7));   // filter duplicates, simplify, median merge
            const int holes = static_cast<int>(c.param("holes", 0, 2));
            mm::geometry::enable_cache();

            Grid grid = make_grid(r, gw, gh, geographic, c.param("far_origin", 0, 3) == 0 ? 4400000 : 0);
            const int winding = static_cast<int>(c.param("winding", 0, 2));
            if (winding) {   // roads much longer than the distance between their ends, some with many points
                std::map<std::pair<int, int>, std::vector<Pt>> bends;
                for (auto &e : grid.edges) {
                    auto key = std::minmax(e.a, e.b);
                    if (not bends.count(key)) {
                        std::vector<Pt> bend;
                        if (r.chance(winding * 0.15)) {
                            const Pt pa = grid.nodes[static_cast<std::size_t>(key.first)].p, pb = grid.nodes[static_cast<std::size_t>(key.second)].p;
                            const int n = static_cast<int>(r.chance(0.5) ? r.range(1, 3) : r.range(14, 24));
                            const double far = r.range(-150, 150) / 100.0;
                            for (int k = 1; k <= n; ++k) {
                                const double f = double(k) / (n + 1), w = std::sin(f * 3.14159265) * far;
                                bend.push_back({rnd(pa.x + f * (pb.x - pa.x) - w * (pb.y - pa.y)), rnd(pa.y + f * (pb.y - pa.y) + w * (pb.x - pa.x))});
                            }
                        }
                        bends[key] = bend;
                    }
                    const auto &bend = bends[key];
                    if (bend.empty()) continue;
                    std::vector<Pt> l{e.line.front()};
                    if (e.a <= e.b) l.insert(l.end(), bend.begin(), bend.end()); else l.insert(l.end(), bend.rbegin(), bend.rend());
                    l.push_back(e.line.back());
                    e.line = l;
                }
            }
            // roads that leave a node in the same direction (less than two degrees apart) count as one road when turns are merged, so there are none
            for (bool again = winding > 0; again;) {
                again = false;
                struct End { int node; double dir; std::pair<int, int> road; };
                std::vector<End> ends;
                auto dir = [](Pt p, Pt q) { return std::atan2(q.y - p.y, q.x - p.x) * 180 / 3.14159265358979; };
                for (auto &e : grid.edges) {
                    ends.push_back({e.a, dir(e.line[0], e.line[1]), std::minmax(e.a, e.b)});
                    ends.push_back({e.b, dir(e.line[e.line.size() - 1], e.line[e.line.size() - 2]), std::minmax(e.a, e.b)});
                }
                for (auto &x : ends) for (auto &y : ends) {
                    const double d = std::fabs(x.dir - y.dir);
                    if (again or x.node != y.node or x.road == y.road or std::min(d, 360 - d) > 5) continue;
                    for (auto &e : grid.edges) if (std::pair<int, int>{std::minmax(e.a, e.b)} == x.road or std::pair<int, int>{std::minmax(e.a, e.b)} == y.road) {
                        if (e.line.size() > 2) again = true;
                        e.line = {e.line.front(), e.line.back()};
                    }
                }
            }
            if (holes) {   // one way roads, dead ends and separate parts
                auto all = grid.edges;
                grid.edges.clear();
                for (auto &e : all) if (not r.chance(holes * 0.15)) grid.edges.push_back(e);
                if (grid.edges.empty()) grid.edges.push_back(all[0]);
            }
            const Plane plane{grid, geographic};
            const Walker walker{grid, plane, geographic ? 0.5 : 0.02};   // projections onto geodesics are that imprecise
            auto net = S::build(grid);

            const bool wide = r.chance(0.2);   // states of three candidates take much longer
            std::vector<Track> all;
            for (int i = 0; i < (wide ? std::min(ntracks, 3) : ntracks); ++i) {
                Track t;
                t.id = "t" + std::to_string(i);
                const int parts = r.chance(0.3) ? 2 : 1;
                for (int p = 0; p < parts; ++p) {
                    auto l = make_track(r, grid, wide ? std::min(maxpts, 4) : maxpts);
                    if (r.chance(0.1)) for (auto &q : l) q.x = rnd(q.x + grid.unit * 50000);
                    if (l.size() < 2) l.push_back(l[0]);
                    if (r.chance(0.4)) for (std::size_t k = l.size(); k-- > 0;) while (r.chance(0.25) and l.size() < (wide ? 5 : 12)) l.insert(l.begin() + static_cast<long>(k), l[k]);   // standing still
                    t.lines.push_back(l);
                }
                all.push_back(t);
            }
            std::vector<Track> used;
            for (std::size_t i = 0; i < all.size(); ++i) if (c.keep(i)) used.push_back(all[i]);

            Args a;
            const char *models[] = {"value-iteration", "value-iteration", "policy-iteration", "viterbi", "q-learning"};
            const char *searches[] = {"combined", "circle", "nearest", "next"};
            a("match")("input", c.dir)("output", c.dir)("filename", "matches.csv")("tracks", c.dir + "/none.csv");
            a("threads", std::to_string(threads));
            a("network-srs", geographic ? "4326" : "3857")("tracks-srs", geographic ? "4326" : "3857");
            a("model", models[model]);
            if (model == 4) a("max-episodes", std::to_string(r.range(1, 200)));
            a("candidate-search", searches[r.below(4)]);
            a("k-nearest", std::to_string(r.range(1, wide ? 2 : 6)));
            a("radius", num(r.range(20, 120)));
            a("radius-lower-limit", "20");
            a("filter-duplicates", tidy & 1 ? "on" : "off")("simplify-track", tidy & 2 ? "on" : "off")("median-merge", tidy & 4 ? "on" : "off");
            a("adaptive-radius", r.chance(0.5) ? "on" : "off");
            a("skip-errors", skip ? "on" : "off")("join-merges", joins ? "on" : "off")("export-edges", whole ? "on" : "off");
            if (turns) a("within-edge-turns", turns == 1 ? "on" : "off");
            const bool siblings = r.chance(0.6), nearby = r.chance(0.6), reverse = r.chance(0.4);
            a("candidate-adoption-siblings", siblings ? "on" : "off")("candidate-adoption-nearby", nearby ? "on" : "off")("candidate-adoption-reverse", reverse ? "on" : "off");
            if (r.chance(0.5)) a("routing-max-distance-factor", num(r.range(1, 40)));
            if (r.chance(0.3)) a("a-star");
            if (wide) a("state-size", "3");
            a("columns", "id,aborted,duration,track,prepared,match,track_length,prepared_length,match_length,edge_ids");
            a("candidates", "candidates.csv")("candidates-columns", "id,part_index,set_index,candidate_index,projection,distance,from,to,edge_id,is_result");
            if (limits) a("max-time", limits == 1 ? "1000" : "1");
            mm::app::set_global_verbose_quiet(false, true);
            Mute mute;
            auto data = S::options(a, mute);

            sim::Sched s = random_sched(r);
            s.max_steps = sim::steps() + 3'000'000'000;
            std::map<std::string, std::pair<u64, u64>> jumps;
            if (limits == 2) {
                for (auto &t : used) if (r.chance(0.7)) jumps[t.id] = {r.below(r.chance(0.5) ? 12 : 400), 2'000'000'000};
                if (r.chance(0.3)) { s.p_stall = 0.01; s.stall_ns = 400'000'000; }
            }
            std::vector<const Track *> order;
            for (auto &t : used) order.push_back(&t);
            sim::start_sched(s);
            Out o = S::pipeline(net, data, &order, 0, jumps);
            sim::stop_sched();
            sim::io_reset();

            const std::string &mc = data.match_output.columns, &cc = data.expo.candidates_columns;
            auto at = [](const std::string &columns, const char *name) { return static_cast<std::size_t>(S::col(columns, name)); };
            std::map<std::string, std::vector<Row>> cand;
            for (auto &row : o.cand) cand[row[0]].push_back(row);
            std::map<std::string, const Track *> by_id;
            for (auto &t : used) by_id[t.id] = &t;
            sim::check(o.match.size() == used.size(), "result-count", std::to_string(o.match.size()) + " results for " + std::to_string(used.size()) + " tracks; console " + o.console.substr(0, 500));
            u64 aborted = 0, lines = 0, segments = 0;
            for (auto &row : o.match) {
                const std::string id = row[0];
                sim::check(by_id.count(id), "wrong-id", "result for unknown track '" + id + "'");
                const Track &t = *by_id[id];
                const bool ab = S::yes(row[at(mc, "aborted")]);
                aborted += ab;
                const std::string where = "track '" + id + "'" + (ab ? " (aborted)" : "") + " with " + a.text();
                auto geo = [&](const char *name) {
                    const std::string &w = row[at(mc, name)];
                    auto ls = read_wkt(w);
                    sim::check(ls.has_value(), "malformed-geometry", std::string{name} + " is '" + w.substr(0, 200) + "' for " + where);
                    std::string ln = std::string{name} + "_length";
                    const double have = std::strtod(row[at(mc, ln.c_str())].c_str(), nullptr), want = plane.length(*ls);
                    sim::check(near_length(have, want), "wrong-length", ln + " is " + num(have) + " but the geometry measures " + num(want) + ": " + w.substr(0, 600) + " for " + where);
                    return *ls;
                };
                const Lines track = geo("track"), prepared = geo("prepared"), match = geo("match");
                // the input is passed through
                sim::check(track.size() == t.lines.size(), "track-altered", "the input geometry of " + where + " has " + std::to_string(track.size()) + " parts");
                for (std::size_t p = 0; p < track.size(); ++p) {
                    bool equal = track[p].size() == t.lines[p].size();
                    for (std::size_t k = 0; equal and k < track[p].size(); ++k) equal = plane.dist(track[p][k], t.lines[p][k]) < 1e-3;
                    sim::check(equal, "track-altered", "part " + std::to_string(p) + " of " + where + " is " + text(track[p]) + " but was " + text(t.lines[p]));
                }
                // preparing only leaves points out, merging replaces groups of them
                if (not (tidy & 4)) {
                    std::size_t tp = 0;
                    for (auto &pl : prepared) {
                        if (pl.empty()) continue;
                        bool found = false;
                        for (; tp < track.size() and not found; ++tp) {
                            const auto &in = t.lines[tp];
                            std::vector<Pt> expect;
                            for (auto &q : in) if (not (tidy & 1) or expect.empty() or q.x != expect.back().x or q.y != expect.back().y) expect.push_back(q);
                            auto close = [&](Pt x, Pt y) { return plane.dist(x, y) < 1e-3; };
                            if (tidy & 2 or ab) {
                                std::size_t k = 0;
                                for (auto &q : (ab ? in : expect)) if (k < pl.size() and close(q, pl[k])) ++k;
                                found = k == pl.size() and close(in.front(), pl.front()) and close(in.back(), pl.back());
                            } else {
                                found = pl.size() == expect.size();
                                for (std::size_t k = 0; found and k < pl.size(); ++k) found = close(expect[k], pl[k]);
                            }
                        }
                        sim::check(found, "wrong-preparation", "prepared line " + text(pl) + " is not what filter " + std::to_string(tidy & 1) + " simplify " + std::to_string(tidy / 2 & 1) + " makes of " + row[at(mc, "track")] + " for " + where);
                    }
                }
                // the drive
                std::vector<std::vector<std::size_t>> ways;
                for (auto &l : match) {
                    if (l.empty()) continue;
                    ++lines;
                    segments += l.size() - 1;
                    std::vector<std::size_t> way;
                    const std::size_t n = walker.follow(l, &way);
                    sim::check(n == l.size(), "off-road", "point " + std::to_string(n) + " of " + text(l) + " cannot be reached by driving (" + num(n < l.size() ? walker.beside(l[n]) : 0.0) + " m from the nearest road); " + where);
                    ways.push_back(way);
                }
                // the edges driven
                if (not whole) {
                    std::set<long> ids;
                    std::vector<long> listed;
                    std::size_t next = 0;
                    std::stringstream list{row[at(mc, "edge_ids")]};
                    for (std::string f; std::getline(list, f, ',');) { listed.push_back(std::strtol(f.c_str(), nullptr, 10)); ids.insert(listed.back()); }
                    std::set<long> driven;
                    for (auto &w : ways) for (auto e : w) driven.insert(static_cast<long>(e) + 1);
                    for (long e : ids) sim::check(driven.count(e), "wrong-edge", "edge_ids " + row[at(mc, "edge_ids")] + " has road " + std::to_string(e) + " that " + row[at(mc, "match")] + " does not drive on, for " + where);
                    for (auto &l : match) for (std::size_t k = 1; k < l.size(); ++k) {
                        if (plane.dist(l[k - 1], l[k]) < 5) continue;
                        std::vector<std::size_t> on;
                        for (auto &pl : walker.places({(l[k - 1].x + l[k].x) / 2, (l[k - 1].y + l[k].y) / 2})) if (walker.offset(pl.first, l[k - 1]) < walker.offset(pl.first, l[k]) - 4) on.push_back(pl.first);
                        if (on.size() != 1) continue;
                        const long road = static_cast<long>(on[0]) + 1;
                        while (next < listed.size() and listed[next] != road) ++next;   // in the order they are driven
                        sim::check(next < listed.size(), "lost-edge", "edge_ids " + row[at(mc, "edge_ids")] + " lacks road " + std::to_string(road) + " of " + row[at(mc, "match")] + " (" + text({l[k - 1], l[k]}) + ") or has it in another order, for " + where);
                    }
                }
                // candidates
                struct Chosen { std::size_t part, set, edge; Pt at; };
                std::vector<Chosen> chosen;
                for (auto &cr : cand[id]) {
                    const long e = std::strtol(cr[at(cc, "edge_id")].c_str(), nullptr, 10);
                    sim::check(e >= 1 and static_cast<std::size_t>(e) <= grid.edges.size(), "unknown-edge", "candidate on edge " + cr[at(cc, "edge_id")] + " for " + where);
                    auto proj = read_wkt(cr[at(cc, "projection")]);
                    sim::check(proj and proj->size() == 1 and (*proj)[0].size() == 2, "malformed-geometry", "projection " + cr[at(cc, "projection")]);
                    const Pt from = (*proj)[0][0], to = (*proj)[0][1];
                    const double d = std::strtod(cr[at(cc, "distance")].c_str(), nullptr);
                    sim::check(near_length(d, plane.dist(from, to)), "wrong-length", "candidate distance " + num(d) + " but the projection measures " + num(plane.dist(from, to)) + " for " + where);
                    bool on = false;
                    for (auto &pl : walker.places(to)) on = on or pl.first + 1 == static_cast<std::size_t>(e);
                    sim::check(on, "off-road", "candidate of edge " + std::to_string(e) + " lies beside it: " + cr[at(cc, "projection")] + " (" + num(walker.beside(to)) + " m)" + " for " + where);
                    bool given = false;
                    for (auto &pl : prepared) for (auto &p : pl) given = given or plane.dist(p, from) < 1e-3;
                    sim::check(given, "wrong-projection", "a candidate starts at no prepared point: " + cr[at(cc, "projection")] + " for " + where);
                    if (cr[at(cc, "is_result")] == "1") chosen.push_back({std::stoul(cr[at(cc, "part_index")]), std::stoul(cr[at(cc, "set_index")]), static_cast<std::size_t>(e - 1), to});
                }
                if (whole) continue;
                auto same = [&](Pt p, Pt q) { return plane.dist(p, q) < 2 * walker.tol; };
                // every line leads from chosen candidate to chosen candidate, the shortest way each
                std::stable_sort(chosen.begin(), chosen.end(), [](auto &x, auto &y) { return std::pair{x.part, x.set} < std::pair{y.part, y.set}; });
                const double none = 1e300;
                std::vector<double> way(chosen.size(), none), nodes(chosen.size(), none), straight(chosen.size(), 0), turn(chosen.size(), none);
                for (std::size_t i = 0; i + 1 < chosen.size(); ++i) {
                    const auto &x = chosen[i], &y = chosen[i + 1];
                    if (x.part != y.part) continue;
                    const double ox = walker.offset(x.edge, x.at), oy = walker.offset(y.edge, y.at);
                    const int from = grid.edges[x.edge].b, to = grid.edges[y.edge].a;
                    nodes[i] = walker.between(from, to);
                    straight[i] = plane.dist(grid.nodes[static_cast<std::size_t>(from)].p, grid.nodes[static_cast<std::size_t>(to)].p);
                    if (nodes[i] < none) way[i] = walker.length(x.edge) - ox + nodes[i] + oy;
                    // no drive is needed between equal points, but points of opposite roads may differ by the rounding of their last digit
                    if (plane.dist(x.at, y.at) < 1e-6) { turn[i] = way[i]; way[i] = nodes[i] = 0; }
                    else if (x.edge == y.edge and ox <= oy) { way[i] = oy - ox; nodes[i] = 0; }
                }
                std::string plan;   // the chosen candidates and the lengths of the drives between them
                for (std::size_t i = 0; i < chosen.size(); ++i) plan += "[" + std::to_string(chosen[i].part) + "." + std::to_string(chosen[i].set) + " road " + std::to_string(chosen[i].edge + 1) + " at " + num(chosen[i].at.x) + " " + num(chosen[i].at.y) + " then " + (way[i] < none ? num(way[i]) + " m" : "no way") + "] ";
                std::vector<bool> linked(chosen.size(), false);
                for (auto &l : match) {
                    if (l.empty()) continue;
                    const double have = plane.length({l});
                    bool ends = false, fits = false;
                    double wanted = none;
                    for (std::size_t i = 0; i < chosen.size(); ++i) {
                        if (not same(chosen[i].at, l.front())) continue;
                        // lengths of the drives from here to every later candidate
                        std::vector<std::set<double>> sums(chosen.size());
                        sums[i].insert(0);
                        for (std::size_t j = i; j < chosen.size(); ++j) {
                            auto reach = [&](std::size_t k, double more) { if (more < none) for (double v : sums[j]) if (sums[k].size() < 64) sums[k].insert(v + more); };
                            if (sums[j].empty()) continue;
                            if (j + 1 < chosen.size()) { reach(j + 1, way[j]); reach(j + 1, turn[j]); }
                            for (std::size_t k = j + 1; k < chosen.size(); ++k) if (chosen[k].part != chosen[j].part and same(chosen[k].at, chosen[j].at)) reach(k, 0);
                            if (not same(chosen[j].at, l.back())) continue;
                            ends = true;
                            for (double sum : sums[j]) {
                                wanted = std::min(wanted, sum);
                                // a stretch driven back and forth may have been cut short
                                if (near_length(have, sum) or (have <= sum and (data.matching.within_edge_turns or joins))) { fits = true; for (std::size_t k = i; k < j; ++k) linked[k] = true; }
                            }
                        }
                    }
                    if (fits) continue;
                    for (auto &x : chosen) ends = ends or same(x.at, l.front());
                    sim::check(ends, "wrong-ends", "a matched line begins or ends at no chosen candidate: " + text(l) + " for " + where);
                    sim::check(fits, "detour", "a matched line of " + num(have) + " m is not the shortest drive (" + num(wanted) + " m) between its candidates: " + text(l) + "; candidates " + plan + " for " + where);
                }
                if (ab or (skip and model != 3)) continue;
                const double factor = data.matching.routing_max_distance_factor;
                for (std::size_t i = 0; i + 1 < chosen.size(); ++i) {
                    const auto &x = chosen[i], &y = chosen[i + 1];
                    if (x.part != y.part or x.set + 1 != y.set or way[i] <= 3 * walker.tol or linked[i]) continue;
                    if (factor >= 0 and nodes[i] > factor * straight[i] * 0.99) continue;
                    sim::violation("gap", "no drive from " + num(x.at.x) + " " + num(x.at.y) + " on road " + std::to_string(x.edge + 1) + " to " + num(y.at.x) + " " + num(y.at.y) + " on road " + std::to_string(y.edge + 1) +
                            " although it takes " + num(way[i]) + " m (" + num(nodes[i]) + " m between nodes that are " + num(straight[i]) + " m apart): " + row[at(mc, "match")] + "; candidates " + plan + " for " + where);
                }
            }
            sim::count("tracks", used.size());
            sim::count("matched-lines", lines);
            sim::count("matched-segments", segments);
            if (aborted) sim::count("probe:aborted-tracks", aborted);
            if (lines and aborted) sim::count("probe:lines-beside-aborts");
            u64 h = 0;
            for (auto &row : o.match) h = sim::mix(h, sim::hash_str(row[at(mc, "match")]));
            sim::state(h);
            sim::note(h);
            if (lines) sim::nontrivial();
        }
    };

}
