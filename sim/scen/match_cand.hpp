// S09: the candidates of every point are those the chosen search selects, in any schedule and at any pace of the clock.
#include "match_impl.hpp"
#include "match_walk.hpp"

namespace scen {

    template<typename CS>
    struct CandidateScenario : MatchScenario<CS> {
        using S = MatchScenario<CS>;
        using typename S::Track;
        using typename S::Out;
        static constexpr bool geographic = S::geographic;

        struct Cand { std::size_t index, edge; Pt from, at; double distance; bool own; };

        static void run(sim::Ctx &c) {
            sim::Rng r = c.rng("candidates");
            const int threads = static_cast<int>(c.param("threads", 1, 4));
            const int ntracks = static_cast<int>(c.param("tracks", 1, 4));
            const int maxpts = static_cast<int>(c.param("points", 2, 8));
            const int gw = static_cast<int>(c.param("grid_w", 2, 5)), gh = static_cast<int>(c.param("grid_h", 2, 5));
            const int search = static_cast<int>(c.param("search", 0, 3)), adoption = static_cast<int>(c.param("adoption", 0, 7));
            const int adaptive = static_cast<int>(c.param("adaptive", 0, 1));
            const int model = static_cast<int>(c.param("model", 0, 5));
            const int tidy = static_cast<int>(c.param("tidy", 0, 7)), away = static_cast<int>(c.param("away", 0, 2));
            mm::geometry::enable_cache();

            const bool far = c.param("far_origin", 0, 3) == 0;
            Grid grid = make_grid(r, gw, gh, geographic, far ? 4400000 : 0);
            std::vector<Pt> met;
            if (c.param("dense", 0, 3) == 0) met = densify(r, grid);
            const Plane plane{grid, geographic};
            const Walker walker{grid, plane, geographic ? 0.5 : 0.02};
            auto net = S::build(grid);

            std::vector<Track> all;
            for (int i = 0; i < ntracks; ++i) {
                Track t;
                t.id = "t" + std::to_string(i);
                const int parts = r.chance(0.3) ? 2 : 1;
                for (int p = 0; p < parts; ++p) {
                    auto l = make_track(r, grid, maxpts);
                    if (away) {   // beyond the first radius, now and then far beyond
                        const double by = r.chance(0.3) ? (r.chance(0.2) ? 3000 : 600) : 150;
                        for (auto &q : l) if (r.chance(away * 0.3)) q = {rnd(q.x + grid.unit * by * (r.unit() - 0.5)), rnd(q.y + grid.unit * by * (r.unit() - 0.5))};
                    }
                    for (auto &q : l) if (not met.empty() and r.chance(0.3)) q = {rnd(r.pick(met).x + grid.unit * 0.00002 * static_cast<double>(r.range(-4, 4))), rnd(q.y)};
                    if (r.chance(0.2)) for (auto &q : l) if (r.chance(0.4)) q = r.pick(grid.nodes).p;   // exactly on a node
                    if (r.chance(0.2)) for (std::size_t k = 0; k < l.size(); ++k) if (r.chance(0.3)) l[k] = l[r.below(k + 1)];
                    if (l.size() < 2) l.push_back(l[0]);
                    t.lines.push_back(l);
                }
                all.push_back(t);
            }
            std::vector<Track> used;
            for (std::size_t i = 0; i < all.size(); ++i) if (c.keep(i)) used.push_back(all[i]);

            const char *models[] = {"viterbi", "viterbi", "viterbi", "viterbi", "value-iteration", "policy-iteration"};
            const char *searches[] = {"combined", "circle", "nearest", "next"};
            const double radius = static_cast<double>(r.range(10, 150)), lower = static_cast<double>(r.range(5, 150)), upper = r.chance(0.5) ? 10000 : static_cast<double>(r.range(100, 400));
            const std::size_t k = r.chance(0.3) ? 1 : static_cast<std::size_t>(r.range(2, 16));
            Args a;
            a("match")("input", c.dir)("output", c.dir)("filename", "matches.csv")("tracks", c.dir + "/none.csv");
            a("threads", std::to_string(threads));
            a("network-srs", geographic ? "4326" : "3857")("tracks-srs", geographic ? "4326" : "3857");
            a("model", models[model])("candidate-search", searches[search]);
            a("k-nearest", std::to_string(k))("radius", num(radius))("radius-lower-limit", num(lower))("radius-upper-limit", num(upper));
            a("adaptive-radius", adaptive ? "on" : "off");
            a("filter-duplicates", tidy & 1 ? "on" : "off")("simplify-track", tidy & 2 ? "on" : "off")("median-merge", tidy & 4 ? "on" : "off");
            const bool siblings = adoption & 1, nearby = adoption & 2, reverse = adoption & 4;
            a("candidate-adoption-siblings", siblings ? "on" : "off")("candidate-adoption-nearby", nearby ? "on" : "off")("candidate-adoption-reverse", reverse ? "on" : "off");
            a("columns", "id,aborted,duration,prepared");
            a("candidates", "candidates.csv")("candidates-columns", "id,part_index,set_index,candidate_index,projection,distance,from,to,edge_id,is_result");
            mm::app::set_global_verbose_quiet(false, true);
            Mute mute;
            auto data = S::options(a, mute);

            sim::Sched s = random_sched(r);
            s.max_steps = sim::steps() + 3'000'000'000;
            s.p_clock_jump = r.chance(0.5) ? 0.2 : 0;   // measured times of other machines
            s.clock_jump_ns = 3000;
            std::vector<const Track *> order;
            for (auto &t : used) order.push_back(&t);
            sim::start_sched(s);
            Out o = S::pipeline(net, data, &order, 0, {});
            sim::stop_sched();
            sim::io_reset();

            const std::string &mc = data.match_output.columns, &cc = data.expo.candidates_columns;
            auto at = [](const std::string &columns, const char *name) { return static_cast<std::size_t>(S::col(columns, name)); };
            std::map<std::string, std::vector<Row>> cand;
            for (auto &row : o.cand) cand[row[0]].push_back(row);
            sim::check(o.match.size() == used.size(), "result-count", std::to_string(o.match.size()) + " results for " + std::to_string(used.size()) + " tracks; console " + o.console.substr(0, 500));
            auto slack = [](double d) { return geographic ? 0.5 + d * 0.006 : 0.01 + d * 1e-6; };
            u64 h = 0, sets = 0, doubled = 0, empty = 0, adopted = 0;
            for (auto &row : o.match) {
                const std::string id = row[0], where = "track '" + id + "' with " + a.text();
                auto prepared = read_wkt(row[at(mc, "prepared")]);
                sim::check(prepared.has_value(), "malformed-geometry", "prepared is '" + row[at(mc, "prepared")].substr(0, 200) + "' for " + where);
                std::map<std::pair<std::size_t, std::size_t>, std::vector<Cand>> have;
                for (auto &cr : cand[id]) {
                    const long e = std::strtol(cr[at(cc, "edge_id")].c_str(), nullptr, 10);
                    sim::check(e >= 1 and static_cast<std::size_t>(e) <= grid.edges.size(), "unknown-edge", "candidate on edge " + cr[at(cc, "edge_id")] + " for " + where);
                    const auto edge = static_cast<std::size_t>(e - 1);
                    const std::size_t part = std::stoul(cr[at(cc, "part_index")]), set = std::stoul(cr[at(cc, "set_index")]);
                    auto proj = read_wkt(cr[at(cc, "projection")]);
                    sim::check(proj and proj->size() == 1 and (*proj)[0].size() == 2, "malformed-geometry", "projection " + cr[at(cc, "projection")]);
                    Cand x{std::stoul(cr[at(cc, "candidate_index")]), edge, (*proj)[0][0], (*proj)[0][1], std::strtod(cr[at(cc, "distance")].c_str(), nullptr), false};
                    const std::string what = "candidate " + std::to_string(x.index) + " of point " + std::to_string(part) + "." + std::to_string(set) + " on road " + std::to_string(e) + " (" + cr[at(cc, "projection")] + ")";
                    sim::check(part < prepared->size() and set < (*prepared)[part].size(), "unknown-point", what + " belongs to no prepared point: " + row[at(mc, "prepared")] + " for " + where);
                    sim::check(plane.dist(x.from, (*prepared)[part][set]) < 1e-3, "wrong-projection", what + " does not start at " + num((*prepared)[part][set].x) + " " + num((*prepared)[part][set].y) + " for " + where);
                    const double d = plane.dist(x.from, x.at);
                    sim::check(std::fabs(x.distance - d) <= slack(d), "wrong-distance", what + " has distance " + num(x.distance) + ", its projection " + num(d) + " for " + where);
                    int on = 0;   // a road may cross itself there
                    for (auto &pl : walker.places(x.at)) on += pl.first == edge;
                    sim::check(on, "off-road", what + " lies beside its road for " + where);
                    // the ways to and from the candidate make up the road
                    auto from = read_wkt(cr[at(cc, "from")]), to = read_wkt(cr[at(cc, "to")]);
                    sim::check(from and to and from->size() == 1 and to->size() == 1, "malformed-geometry", "from " + cr[at(cc, "from")] + " to " + cr[at(cc, "to")]);
                    auto &fl = (*from)[0], &tl = (*to)[0];
                    auto &line = grid.edges[edge].line;
                    const double len = walker.length(edge), lf = plane.length(*from), lt = plane.length(*to), tol = 4 * walker.tol + len * (geographic ? 0.005 : 1e-6);
                    auto same = [&](Pt p, Pt q) { return plane.dist(p, q) <= 2 * walker.tol; };
                    const bool fits = (fl.empty() ? same(x.at, line.front()) : same(fl.front(), line.front()) and same(fl.back(), x.at)) and
                                      (tl.empty() ? same(x.at, line.back()) : same(tl.front(), x.at) and same(tl.back(), line.back()));
                    sim::check(on > 1 or (fits and std::fabs(lf + lt - len) <= tol and walker.follow(fl) == fl.size() and walker.follow(tl) == tl.size()),
                            "wrong-parts", what + " splits its road of " + num(len) + " m into " + cr[at(cc, "from")] + " (" + num(lf) + " m) and " + cr[at(cc, "to")] + " (" + num(lt) + " m) for " + where);
                    have[{part, set}].push_back(x);
                    h = sim::mix(h, (part << 40) ^ (set << 24) ^ edge);
                }
                for (std::size_t part = 0; part < prepared->size(); ++part) {
                    auto &line = (*prepared)[part];
                    const std::size_t n = line.size();
                    // what a scan over all roads selects for each point: roads that must be there and roads that may be, because they lie on the border
                    struct Own { std::set<std::size_t> must, may; bool unsure{false}; double tried{0}; };
                    std::vector<Own> own(n);
                    std::vector<std::vector<double>> dist(n);
                    for (std::size_t i = 0; i < n; ++i) {
                        std::vector<std::pair<double, std::size_t>> segs;
                        dist[i].assign(grid.edges.size(), 1e300);
                        for (std::size_t e = 0; e < grid.edges.size(); ++e) {
                            auto &l = grid.edges[e].line;
                            for (std::size_t j = 1; j < l.size(); ++j) {
                                const double d = plane.project(line[i], l[j - 1], l[j]).first;
                                segs.push_back({d, e});
                                dist[i][e] = std::min(dist[i][e], d);
                            }
                        }
                        std::sort(segs.begin(), segs.end());
                        const double nearest = segs[0].first;
                        Own &w = own[i];
                        if (search == 1) for (std::size_t e = 0; e < grid.edges.size(); ++e) w.must.insert(e);
                        else {
                            const std::size_t kk = std::min(search == 3 ? 1 : k, segs.size());
                            const double border = segs[kk - 1].first;
                            for (auto &[d, e] : segs) {
                                if (d < border - 2 * slack(border) or kk == segs.size()) w.must.insert(e);
                                else if (d <= border + 2 * slack(border)) w.may.insert(e);
                            }
                        }
                        if (search < 2) {
                            double reach = radius;
                            double wobble = 0;
                            if (adaptive) {
                                for (std::size_t j : {i, i + 1}) if (j > 0 and j < n) {
                                    const double gap = plane.dist(line[j - 1], line[j]);
                                    if (gap < 1e-3) { if (tidy & 4) w.unsure = true; continue; }   // no segment between equal points; merged points may be rounded
                                    if (gap < reach) { reach = gap; wobble = slack(gap); }
                                }
                                const double low = std::min(lower, radius);
                                if (reach < low) { reach = low; wobble = 0; }
                            }
                            const double top = std::max(upper, radius);
                            reach = std::min(reach, top);
                            while (nearest > reach and reach < top) {
                                if (nearest - reach <= slack(reach) + wobble) w.unsure = true;
                                reach = std::min(reach * 2, top);
                                wobble *= 2;
                                ++doubled;
                            }
                            if (std::fabs(nearest - reach) <= slack(reach) + wobble) w.unsure = true;
                            const double brink = slack(reach) + wobble;
                            auto trim = [&](std::set<std::size_t> &v, bool strict) {
                                for (auto it = v.begin(); it != v.end();) {
                                    const double d = dist[i][*it];
                                    if (d > reach + brink) it = v.erase(it);
                                    else if (strict and d > reach - brink) { w.may.insert(*it); it = v.erase(it); }
                                    else ++it;
                                }
                            };
                            trim(w.may, false);
                            trim(w.must, true);
                            w.tried = reach;
                        }
                        if (search == 3) {   // neighbours and ways back of the nearest road
                            std::set<std::size_t> more = w.may;
                            for (std::size_t e : w.must) more.insert(e);
                            const std::set<std::size_t> base = more;
                            for (std::size_t e : base) for (std::size_t f = 0; f < grid.edges.size(); ++f) {
                                const int fa = grid.edges[f].a;
                                if (fa == grid.edges[e].a or fa == grid.edges[e].b) more.insert(f);
                            }
                            const std::set<std::size_t> wide = more;
                            for (std::size_t e : wide) for (std::size_t f = 0; f < grid.edges.size(); ++f) if (grid.edges[f].a == grid.edges[e].b and grid.edges[f].b == grid.edges[e].a) more.insert(f);
                            // where one road alone is closest, both of its directions are candidates
                            std::set<std::pair<int, int>> closest;
                            for (std::size_t e : base) closest.insert(std::minmax(grid.edges[e].a, grid.edges[e].b));
                            if (closest.size() == 1) for (std::size_t f = 0; f < grid.edges.size(); ++f) if (closest.count(std::minmax(grid.edges[f].a, grid.edges[f].b)) and dist[i][f] <= nearest + slack(nearest)) w.must.insert(f);
                            w.may.clear();
                            for (std::size_t e : more) if (not w.must.count(e)) w.may.insert(e);
                        } else if (w.must.empty() and w.may.empty()) ++empty;
                        ++sets;
                    }
                    auto list = [](const std::set<std::size_t> &v) { std::string t; for (auto e : v) t += " " + std::to_string(e + 1); return t; };
                    // own candidates lie where their road is closest
                    for (std::size_t i = 0; i < n; ++i) {
                        auto &cs = have[{part, i}];
                        std::string got;
                        for (auto &x : cs) got += " " + std::to_string(x.edge + 1) + "@" + num(x.distance);
                        const std::string what = "point " + std::to_string(part) + "." + std::to_string(i) + " (" + num(line[i].x) + " " + num(line[i].y) + ") has candidates" + got + "; roads that must be among them" + list(own[i].must) +
                                ", that may be" + list(own[i].may) + ", radius " + num(own[i].tried) + ", for " + where;
                        std::set<std::size_t> indexes, roads;
                        for (auto &x : cs) {
                            sim::check(x.distance >= dist[i][x.edge] - slack(dist[i][x.edge]), "wrong-distance", "road " + std::to_string(x.edge + 1) + " is " + num(dist[i][x.edge]) + " m away; " + what);
                            x.own = x.distance <= dist[i][x.edge] + 2 * slack(dist[i][x.edge]);
                            if (x.own) roads.insert(x.edge);
                            if (not geographic and not far and x.own and not siblings and not nearby) {   // where exactly; only the last digits are rounded
                                double off = 1e300;
                                auto &l = grid.edges[x.edge].line;
                                for (std::size_t j = 1; j < l.size(); ++j) {
                                    auto [d, f] = plane.project(line[i], l[j - 1], l[j]);
                                    if (d <= dist[i][x.edge] + 1e-5) off = std::min(off, plane.dist(x.at, {l[j - 1].x + f * (l[j].x - l[j - 1].x), l[j - 1].y + f * (l[j].y - l[j - 1].y)}));
                                }
                                sim::check(off <= 0.002, "wrong-place", "the candidate of road " + std::to_string(x.edge + 1) + " at " + num(x.at.x) + " " + num(x.at.y) + " is " + num(off) + " m off the closest place; " + what);
                            }
                            indexes.insert(x.index);
                        }
                        sim::check(indexes.size() == cs.size() and (cs.empty() or *indexes.rbegin() + 1 == cs.size()), "wrong-index", "indexes of candidates repeat or miss some; " + what);
                        if (own[i].unsure) continue;
                        for (auto e : own[i].must) sim::check(roads.count(e), "missing-candidate", "no candidate for road " + std::to_string(e + 1) + ", " + num(dist[i][e]) + " m away; " + what);
                        bool some = own[i].may.empty() or not own[i].must.empty();
                        for (auto e : own[i].may) some = some or roads.count(e);
                        sim::check(some, "missing-candidate", "none of the nearest roads; " + what);
                        if (siblings or nearby) continue;
                        for (auto &x : cs) {
                            sim::check(x.own, "wrong-distance", "the candidate of road " + std::to_string(x.edge + 1) + " is not at its closest point, " + num(dist[i][x.edge]) + " m away; " + what);
                            sim::check(own[i].must.count(x.edge) or own[i].may.count(x.edge), "extra-candidate", "candidate for road " + std::to_string(x.edge + 1) + ", " + num(dist[i][x.edge]) + " m away; " + what);
                        }
                        sim::check(roads.size() == cs.size(), "double-candidate", what);
                    }
                    if (not siblings and not nearby) continue;
                    std::string sets_text;   // of every point: roads selected and candidates found
                    for (std::size_t i = 0; i < n; ++i) {
                        sets_text += "; point " + std::to_string(i) + " selects" + list(own[i].must) + " perhaps" + list(own[i].may) + (own[i].unsure ? " (on the brink)" : "") + " within " + num(own[i].tried) + " and has";
                        for (auto &x : have[{part, i}]) sets_text += " " + std::to_string(x.edge + 1) + "@" + num(x.distance) + "/" + num(dist[i][x.edge]);
                    }
                    // adopted candidates come from the sets they may come from, and all of them do
                    auto is_own = [&](std::size_t j, const Cand &x, bool sure) {
                        const double d = plane.dist(line[j], x.at);
                        bool close = d <= dist[j][x.edge] + 2 * slack(dist[j][x.edge]);
                        // its own candidate is the closest on that road
                        if (sure) for (auto &y : have[{part, j}]) if (y.edge == x.edge and y.index != x.index and y.distance <= x.distance + 1e-3) close = false;
                        return close and (own[j].must.count(x.edge) or (not sure and (own[j].may.count(x.edge) or own[j].unsure)));
                    };
                    auto holds = [&](std::size_t i, const Cand &x) { for (auto &y : have[{part, i}]) if (y.edge == x.edge and plane.dist(x.at, y.at) <= 4 * walker.tol) return true; return false; };
                    for (std::size_t i = 0; i < n; ++i) {
                        double longest = 0, shortest = 0;   // of the own candidates that might, and that must be there
                        for (auto e : own[i].must) { longest = std::max(longest, dist[i][e]); shortest = std::max(shortest, dist[i][e]); }
                        for (auto e : own[i].may) longest = std::max(longest, dist[i][e]);
                        for (auto &x : have[{part, i}]) {
                            if (is_own(i, x, false)) continue;
                            ++adopted;
                            bool allowed = false;
                            for (std::size_t j = 0; j < n and not allowed; ++j) {
                                if (j == i or not is_own(j, x, false)) continue;
                                if (siblings and (j + 1 == i or i + 1 == j)) allowed = true;
                                if (nearby and (reverse or own[i].unsure)) allowed = true;
                                if (nearby and plane.project(line[i], line[j], x.at).first <= longest + 2 * slack(longest)) allowed = true;
                            }
                            sim::check(allowed, "wrong-adoption", "point " + std::to_string(part) + "." + std::to_string(i) + " of " + row[at(mc, "prepared")] + " has a candidate on road " + std::to_string(x.edge + 1) + " at " + num(x.at.x) + " " + num(x.at.y) + ", " + num(x.distance) +
                                    " m away, that it cannot have adopted (farthest own " + num(longest) + " m), for " + where + sets_text);
                        }
                        for (std::size_t j = 0; j < n; ++j) {
                            if (j == i) continue;
                            bool injects = false;   // a candidate of j is nearby, so j gets the own ones of i in return
                            for (auto &x : have[{part, j}]) {
                                if (not is_own(j, x, true)) continue;
                                injects = injects or (nearby and reverse and not own[i].unsure and shortest > 0 and plane.project(line[i], line[j], x.at).first < shortest - 2 * slack(shortest));
                                const bool sibling = siblings and (j + 1 == i or i + 1 == j);
                                const bool near = nearby and not own[i].unsure and shortest > 0 and plane.project(line[i], line[j], x.at).first < shortest - 2 * slack(shortest);
                                if (sibling or near) sim::check(holds(i, x), "missing-adoption", "point " + std::to_string(part) + "." + std::to_string(i) + " of " + row[at(mc, "prepared")] + " lacks the candidate on road " + std::to_string(x.edge + 1) + " at " + num(x.at.x) + " " + num(x.at.y) +
                                        " of point " + std::to_string(j) + (sibling ? ", its neighbour" : ", nearby") + ", for " + where + sets_text);
                            }
                            if (injects) for (auto &x : have[{part, i}]) if (is_own(i, x, true)) sim::check(holds(j, x), "missing-adoption", "point " + std::to_string(part) + "." + std::to_string(j) + " of " + row[at(mc, "prepared")] + " lacks the candidate on road " + std::to_string(x.edge + 1) + " at " +
                                    num(x.at.x) + " " + num(x.at.y) + " of point " + std::to_string(i) + " that adopted from it, for " + where + sets_text);
                        }
                    }
                }
            }
            sim::count("tracks", used.size());
            sim::count("candidate-sets", sets);
            if (doubled) sim::count("probe:radius-doubled", doubled);
            if (empty) sim::count("probe:no-candidates", empty);
            if (adopted) sim::count("probe:adopted", adopted);
            sim::state(h);
            sim::note(h);
            if (sets) sim::nontrivial();
        }
    };

}
