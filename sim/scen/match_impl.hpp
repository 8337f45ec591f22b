// S01 / S04 / S05 / S07: the matching pipeline (reader, dispatcher, workers, writers) under the simulator.
#pragma once
#include "match_util.hpp"

#include "types/io/helper/tag_helper.hpp"
#include "types/io/helper/graph_helper.hpp"
#include "types/io/helper/index_helper.hpp"
#include "types/geometry/network/network.hpp"
#include "types/geometry/network/network_import.hpp"

#include "app/match.hpp"
#include "geometry/cache.hpp"

namespace scen {

    namespace mm = map_matching_2;

    template<typename CS>
    struct MatchScenario {
        using P = mm::geometry::point_type<CS>;
        using MT = mm::io::memory_mapped::memory_types;
        using GHI = mm::io::helper::graph_helper_import_type<P, MT, mm::io::helper::import_tag_helper_type<MT>>;
        using NI = mm::geometry::network::network_import<GHI>;
        using GH = mm::io::helper::graph_helper_type<P, MT, mm::io::helper::tag_helper_type<MT>>;
        using IH = mm::io::helper::index_helper_type<P, MT, MT>;
        using N = mm::geometry::network::network<GH, IH>;
        using matcher_type = mm::matching::matcher<N>;
        using multi_track_type = mm::geometry::track::multi_track_type<P>;
        using line_type = typename multi_track_type::line_type;
        using edge_line_type = typename NI::edge_data_type::rich_line_type::line_type;
        static constexpr bool geographic = std::same_as<CS, mm::geometry::cs_geographic>;
        using OtherCS = std::conditional_t<geographic, mm::geometry::cs_cartesian, mm::geometry::cs_geographic>;
        using OP = mm::geometry::point_type<OtherCS>;

        struct Seen { std::string id; u64 start, end, reads; bool threw; bool jumped; bool starved; int tid; };

        // the real matcher; its per track entry point is bracketed to place faults and to know when a track was worked on
        struct Probe : matcher_type {
            using matcher_type::matcher_type;
            double alloc_p{0};
            std::map<std::string, std::pair<u64, u64>> jumps;
            std::vector<Seen> seen;
            int running{0}, max_running{0};

            void execute(mm::matching::match_task &&task) override {
                Seen s{};
                u64 at = ~0ull, ns = 0;
                {
                    sim::Quiet q;
                    s.id = std::visit([](auto &t) { return t.id; }, task.multi_track);
                    s.start = sim::now_ns();
                    s.tid = sim::current_tid();
                    auto it = jumps.find(s.id);
                    if (it != jumps.end()) { at = it->second.first; ns = it->second.second; }
                    max_running = std::max(max_running, ++running);
                }
                sim::clock_plan(at, ns);
                if (alloc_p > 0) sim::alloc_fault_window(alloc_p);
                auto done = [&](bool threw) {
                    sim::alloc_fault_window(0);
                    sim::Quiet q;
                    s.end = sim::now_ns();
                    s.reads = sim::clock_reads();
                    s.jumped = at != ~0ull and s.reads > at;
                    s.threw = threw;
                    s.starved = alloc_p > 0 and sim::alloc_fault_hits() > 0;
                    --running;
                    seen.push_back(s);
                };
                try {
                    matcher_type::execute(std::move(task));
                } catch (...) {
                    done(true);
                    sim::clock_plan(~0ull, 0);
                    throw;
                }
                done(false);
                sim::clock_plan(~0ull, 0);
            }
        };

        struct Track { std::string id; std::vector<std::vector<Pt>> lines; bool foreign{false}; int file{0}; };

        static std::unique_ptr<N> build(const Grid &g) {
            NI ni{};
            for (std::size_t i = 0; i < g.nodes.size(); ++i) {
                ni.graph_helper().add_vertex_with_index_mapping(
                        typename NI::vertex_data_type{i + 1, P{g.nodes[i].p.x, g.nodes[i].p.y}}, ni.tag_helper());
            }
            std::size_t id = 1;
            for (auto &e : g.edges) {
                edge_line_type l;
                for (auto &p : e.line) l.emplace_back(P{p.x, p.y});
                using edge_type = typename NI::edge_data_type;
                ni.graph_helper().add_edge(static_cast<std::size_t>(e.a), static_cast<std::size_t>(e.b),
                        edge_type{id, typename edge_type::rich_line_type{std::move(l)}});
                ++id;
            }
            auto n = std::make_unique<N>();
            n->graph_helper().from_adjacency_list(ni.graph_helper(), ni.tag_helper());
            n->build_spatial_indices();
            return n;
        }

        static std::string wkt(const Track &t) {
            auto pts = [](const std::vector<Pt> &l) {
                std::string s = "(";
                for (std::size_t i = 0; i < l.size(); ++i) s += (i ? "," : "") + num(l[i].x) + " " + num(l[i].y);
                return s + ")";
            };
            if (t.lines.size() == 1) return "LINESTRING" + pts(t.lines[0]);
            std::string s = "MULTILINESTRING(";
            for (std::size_t i = 0; i < t.lines.size(); ++i) s += (i ? "," : "") + pts(t.lines[i]);
            return s + ")";
        }

        static std::string quote(const std::string &s) {
            if (s.find_first_of(",\"\n\r") == std::string::npos) return s;
            std::string o = "\"";
            for (char c : s) { if (c == '"') o += '"'; o += c; }
            return o + "\"";
        }

        // write the input files; returns their names
        static std::vector<std::string> write_inputs(const std::string &dir, const std::vector<Track> &ts, int files, int form, sim::Rng r) {
            std::vector<std::string> names, text(static_cast<std::size_t>(files));
            for (int f = 0; f < files; ++f) {
                names.push_back(dir + "/tracks" + std::to_string(f) + ".csv");
                text[static_cast<std::size_t>(f)] = form == 0 ? "id,geometry\n" : form == 1 ? "id,x,y\n" : "time,id,geometry\n";
            }
            // form 0: one geometry per row; form 1: x,y rows grouped by id; form 2: points with times, ids interleaved
            for (int f = 0; f < files; ++f) {
                auto &o = text[static_cast<std::size_t>(f)];
                if (form == 2) {
                    std::vector<std::pair<std::size_t, std::size_t>> rows;
                    std::vector<std::size_t> at(ts.size(), 0);
                    for (;;) {
                        std::vector<std::size_t> c;
                        for (std::size_t k = 0; k < ts.size(); ++k) if (ts[k].file == f and at[k] < ts[k].lines[0].size()) c.push_back(k);
                        if (c.empty()) break;
                        const std::size_t k = c[r.below(c.size())];
                        rows.emplace_back(k, at[k]++);
                    }
                    for (auto [k, i] : rows) {
                        auto &p = ts[k].lines[0][i];
                        o += std::to_string(1000 + 10 * i) + "," + quote(ts[k].id) + ",POINT(" + num(p.x) + " " + num(p.y) + ")\n";
                    }
                } else {
                    for (auto &t : ts) {
                        if (t.file != f) continue;
                        if (form == 0) o += quote(t.id) + "," + quote(wkt(t)) + "\n";
                        else for (auto &p : t.lines[0]) o += quote(t.id) + "," + num(p.x) + "," + num(p.y) + "\n";
                    }
                }
                spit(names[static_cast<std::size_t>(f)], o);
            }
            return names;
        }

        static mm::app::match_data options(Args a, Mute &mute) {
            mm::app::match_data data;
            auto all = mm::app::options_match(data);
            mm::app::po::variables_map vm;
            auto v = a.argv();
            Capture cap;
            if (not mm::app::process(static_cast<int>(v.size()) - 1, v.data(), vm, all, mm::app::MODE::MATCH)) {
                sim::violation("harness-options", mute.text + " the application refused its options: " + a.text());
            }
            data.correct(vm);
            return data;
        }

        static multi_track_type make(const Track &t) {
            if (t.lines.size() == 1) {
                line_type l;
                for (auto &p : t.lines[0]) l.emplace_back(P{p.x, p.y});
                return multi_track_type{t.id, std::move(l)};
            }
            typename multi_track_type::multi_line_type m;
            for (auto &q : t.lines) {
                line_type l;
                for (auto &p : q) l.emplace_back(P{p.x, p.y});
                m.emplace_back(std::move(l));
            }
            return multi_track_type{t.id, std::move(m)};
        }

        static mm::geometry::track::multi_track_variant_type make_foreign(const Track &t) {
            using line = typename mm::geometry::track::multi_track_type<OP>::line_type;
            line l;
            for (auto &p : t.lines[0]) l.emplace_back(OP{geographic ? p.x : p.x / 1000, geographic ? p.y : p.y / 1000});
            return mm::geometry::track::multi_track_type<OP>{t.id, std::move(l)};
        }

        struct Out { std::vector<Row> match, cand; std::vector<Seen> seen; std::string console; int max_running{0}; bool has_match{false}, has_cand{false}, hard{false}; };

        // one pipeline run; direct: tracks are handed to the matcher by this thread instead of by the file reader
        static Out pipeline(std::unique_ptr<N> &net, const mm::app::match_data &data, const std::vector<const Track *> *direct,
                double alloc_p, const std::map<std::string, std::pair<u64, u64>> &jumps, bool lenient = false, const std::string &earlier = {}) {
            Out o;
            const std::string mf = data.match_output.output + "/" + data.match_output.filename;
            const std::string cf = data.match_output.output + "/" + data.expo.candidates;
            std::remove(mf.c_str());
            if (not data.expo.candidates.empty()) std::remove(cf.c_str());
            if (not earlier.empty()) { spit(mf, earlier); if (not data.expo.candidates.empty()) spit(cf, earlier); }
            {
                Capture cap;
                {
                    auto matcher = std::make_unique<Probe>(*net, mm::matching::matcher_output_settings{
                            mf, data.match_output.columns, data.expo.candidates.empty() ? std::string{} : cf, data.expo.candidates_columns, data.console.console, mm::app::global.verbose},
                            data.performance.threads);
                    matcher->alloc_p = alloc_p;
                    matcher->jumps = jumps;
                    matcher->start();
                    if (direct) {
                        const auto st = mm::app::_match_settings(data);
                        for (auto *t : *direct) {
                            if (t->foreign) matcher->match(make_foreign(*t), st);
                            else matcher->match(make(*t), st);
                        }
                        matcher->stop();
                    } else {
                        mm::app::_read_tracks(matcher, data);
                    }
                    matcher->join();
                    {
                        sim::Quiet q;
                        o.seen = matcher->seen;
                        o.max_running = matcher->max_running;
                    }
                    matcher.reset();
                }
                o.console = cap.text;
            }
            o.hard = sim::io_failed();
            if (lenient) sim::io_reset();
            auto load = [&](const std::string &file, const std::string &columns, std::vector<Row> &rows, bool &has) {
                const std::string t = slurp(file, &has);
                Csv c = parse_csv(t);
                if (lenient) { if (c.error.empty()) rows = c.rows; return; }   // judged by the caller
                sim::check(c.error.empty(), "malformed-file", file.substr(file.rfind('/') + 1) + ": " + c.error);
                if (c.rows.empty()) return;
                Row head;
                std::stringstream ss{columns};
                for (std::string f; std::getline(ss, f, ',');) head.push_back(f);
                sim::check(c.rows[0] == head, "malformed-file", file.substr(file.rfind('/') + 1) + " does not start with its header but with: " + join(c.rows[0]));
                for (std::size_t i = 1; i < c.rows.size(); ++i) {
                    sim::check(c.rows[i] != head, "malformed-file", "header written twice");
                    sim::check(c.rows[i].size() == head.size(), "malformed-file", "row with " + std::to_string(c.rows[i].size()) + " of " +
                            std::to_string(head.size()) + " fields: " + join(c.rows[i]).substr(0, 300));
                    rows.push_back(c.rows[i]);
                }
            };
            if (not data.console.console) {
                load(mf, data.match_output.columns, o.match, o.has_match);
                if (not data.expo.candidates.empty()) load(cf, data.expo.candidates_columns, o.cand, o.has_cand);
            }
            return o;
        }

        // S03: whatever did not reach its file is reported
        template<typename Strip>
        static void stored(const mm::app::match_data &data, const std::vector<Track> &used, Out &o, std::map<std::string, std::vector<Row>> &ref_match,
                std::map<std::string, std::vector<Row>> &ref_cand, Strip strip, bool cand, bool hard, const std::string &told) {
            std::map<std::string, int> seen;
            for (auto &x : o.seen) ++seen[x.id];
            u64 good = 0;
            for (auto &t : used) {
                sim::check(seen[t.id] == 1, "track-lost", "track '" + t.id + "' was matched " + std::to_string(seen[t.id]) + " times although only its result cannot be stored");
                good += not t.foreign;
            }
            auto file = [&](const std::string &name, const std::string &columns, std::vector<Row> rows, std::multiset<Row> want, bool durations) {
                Row head;
                std::stringstream ss{columns};
                for (std::string f; std::getline(ss, f, ',');) head.push_back(f);
                bool complete = want.empty();
                if (not rows.empty() and rows[0] == head) {
                    std::multiset<Row> have;
                    for (std::size_t i = 1; i < rows.size(); ++i) have.insert(durations and rows[i].size() == head.size() ? strip(rows[i]) : rows[i]);
                    complete = have == want;
                } else if (not rows.empty()) complete = false;
                const bool reported = told.find(name) != std::string::npos;
                if (not complete) {
                    sim::check(hard, "incomplete", name + " is incomplete although no operation failed");
                    sim::check(reported, "silent-loss", name + " holds " + std::to_string(rows.empty() ? 0 : rows.size() - 1) + " of " + std::to_string(want.size()) + " results, nothing was reported");
                    sim::count("probe:incomplete-reported");
                } else if (not hard) sim::check(not reported, "false-report", name + " is complete, but reported: " + told.substr(0, 300));
            };
            std::multiset<Row> want, want_cand;
            for (auto &[id, rows] : ref_match) want.insert(rows[0]);
            for (auto &[id, rows] : ref_cand) want_cand.insert(rows.begin(), rows.end());
            file(data.match_output.filename, data.match_output.columns, o.match, want, true);
            if (cand) file(data.expo.candidates, data.expo.candidates_columns, o.cand, want_cand, false);
            sim::count("results", good);
            if (hard) sim::count("probe:hard-error");
            sim::state(sim::mix(sim::hash_str(told), o.match.size()));
            sim::note(o.match.size());
            if (good) sim::nontrivial();
        }

        static bool yes(const std::string &s) { return not(s.empty() or s == "0" or s == "no" or s == "false" or s == "n" or s == "off"); }

        static int col(const std::string &columns, const std::string &name) {
            std::stringstream ss{columns};
            int i = 0;
            for (std::string f; std::getline(ss, f, ','); ++i) if (f == name) return i;
            return -1;
        }

        static void run(sim::Ctx &c) {
            const bool s04 = c.prop == "S04", s05 = c.prop == "S05", s07 = c.prop == "S07", s03 = c.prop == "S03";
            sim::Rng r = c.rng("match");
            const int threads = static_cast<int>(c.param("threads", 1, 4));
            const int ntracks = static_cast<int>(c.param("tracks", 2, s04 ? 6 : 10));
            const int maxpts = static_cast<int>(c.param("points", 2, 8));
            int gw = static_cast<int>(c.param("grid_w", 2, 5)), gh = static_cast<int>(c.param("grid_h", 2, 4));
            const int files = static_cast<int>(c.param("files", 1, 3));
            const int mode = static_cast<int>(c.param("mode", 0, 3));     // 0-2 input file forms, 3 handed over directly
            const int fail_class = static_cast<int>(c.param("fail_class", 0, 3));
            const int model = static_cast<int>(c.param("model", 0, 3));
            const int strange = static_cast<int>(c.param("strange_ids", 0, 1));
            const int console = s03 ? (c.param("console", 0, 3) == 0 ? 2 : 0) : s07 ? static_cast<int>(c.param("console", 0, 2)) : static_cast<int>(c.param("console", 0, 7) == 0 ? 2 : 0);  // 1 console, 2 verbose
            mm::geometry::enable_cache();

            const bool far = c.param("far_origin", 0, 1) == 1, dense = c.param("dense", 0, 3) == 0;
            if (dense) gw = std::min(gw, 3), gh = std::min(gh, 3);
            Grid grid = make_grid(r, gw, gh, geographic, far ? 4400000 : 0);
            std::vector<Pt> met;
            sim::Rng dr = c.rng("dense");
            if (dense) met = densify(dr, grid);
            auto net = build(grid);

            std::vector<Track> all;
            const char *odd[] = {"a,b", "q\"x\"", "sp ace", "line\nfeed", "ü-", "'", "0", "-1"};
            for (int i = 0; i < ntracks; ++i) {
                Track t;
                t.id = "t" + std::to_string(i);
                if (strange and r.chance(0.6)) t.id = odd[r.below(8)] + std::to_string(i);
                const int parts = mode == 0 or mode == 3 ? (r.chance(s07 ? 0.5 : 0.2) ? 2 : 1) : 1;
                for (int p = 0; p < parts; ++p) t.lines.push_back(make_track(r, grid, maxpts));
                if (not all.empty() and r.chance(0.3)) {  // almost the same drive as an earlier one
                    const auto &like = r.pick(all).lines[0];
                    const double by = grid.unit * (r.chance(0.5) ? 0.2 : 0.02);
                    t.lines[0].clear();
                    for (auto &q : like) t.lines[0].push_back({rnd(q.x + by * (r.unit() - 0.5)), rnd(q.y + by * (r.unit() - 0.5))});
                }
                for (auto &l : t.lines) for (auto &q : l) if (not met.empty() and dr.chance(0.3)) {
                    // next to a point of one road that another one passes
                    q = dr.pick(met);
                    q.x += grid.unit * 0.00002 * static_cast<double>(dr.range(-4, 4));
                    if (dr.chance(0.3)) q.y += grid.unit * static_cast<double>(dr.range(-3, 3));
                    q = {rnd(q.x), rnd(q.y)};
                }
                if (r.chance(0.08)) for (auto &q : t.lines[0]) q.x = rnd(q.x + grid.unit * 50000);   // far away from every road
                t.foreign = mode == 3 and fail_class == 2 and r.chance(0.4);
                t.file = static_cast<int>(r.below(static_cast<u64>(files)));
                if (t.lines.size() == 1 and t.lines[0].size() < 2 and mode == 0) t.lines[0].push_back(t.lines[0][0]);
                for (auto &l : t.lines) if (l.size() < 2 and t.lines.size() > 1) l.push_back(l[0]);
                all.push_back(t);
            }
            std::vector<Track> used;
            for (std::size_t i = 0; i < all.size(); ++i) if (c.keep(i)) used.push_back(all[i]);
            std::stable_sort(used.begin(), used.end(), [](auto &a, auto &b) { return a.file < b.file; });

            Args a;
            const char *models[] = {"value-iteration", "value-iteration", "policy-iteration", "viterbi"};
            const char *searches[] = {"combined", "circle", "nearest", "next"};
            a("match")("input", c.dir)("output", c.dir)("filename", "matches.csv");
            a("threads", std::to_string(threads));
            if (geographic) a("network-srs", "4326")("tracks-srs", "4326");
            else a("network-srs", "3857")("tracks-srs", "3857");
            a("model", models[model]);
            a("candidate-search", searches[r.below(4)]);
            a("k-nearest", std::to_string(r.range(2, 6)));
            a("radius", num(r.range(20, 80)));
            a("radius-lower-limit", "20");
            a("simplify-track", r.chance(0.6) ? "yes" : "no");
            a("filter-duplicates", r.chance(0.8) ? "yes" : "no");
            a("adaptive-radius", r.chance(0.5) ? "yes" : "no");
            a("skip-errors", r.chance(0.8) ? "yes" : "no");
            a("join-merges", r.chance(0.6) ? "yes" : "no");
            a("export-edges", r.chance(0.3) ? "yes" : "no");
            if (r.chance(0.3)) a("a-star");
            if (r.chance(0.3)) a("state-size", "3");
            a("columns", "id,aborted,duration,track,prepared,match,track_length,prepared_length,match_length" + std::string{r.chance(0.5) ? ",edge_ids" : ""});
            const bool cand = r.chance(s07 or s03 ? 0.9 : 0.6);
            if (cand) a("candidates", "candidates.csv");
            const double limit = s05 ? 1.0 : r.chance(0.3) ? 100.0 : 0.0;
            if (limit > 0) a("max-time", num(limit));
            if (console == 1) a("console");
            if (mode != 3) {
                sim::Rng wr = c.rng("inputs");
                for (auto &f : write_inputs(c.dir, used, files, mode, wr)) a("tracks", f);
                if (mode != 1) a("wkt");
                if (mode == 2) a("grouped", "no")("time", "time")("no-parse-time");
            } else {
                a("tracks", c.dir + "/none.csv");
            }
            mm::app::set_global_verbose_quiet(console == 2, true);
            Mute mute;
            auto data = options(a, mute);

            // reference: every track alone, one thread, nothing disturbed
            std::map<std::string, std::vector<Row>> ref_match, ref_cand;
            std::map<std::string, std::string> ref_console;
            std::map<std::string, u64> ref_reads;
            auto ref_data = data;
            ref_data.performance.threads = 1;
            ref_data.matching.max_time = s05 ? 1e6 : data.matching.max_time;
            const int did = col(data.match_output.columns, "duration"), aid = col(data.match_output.columns, "aborted");
            sim::Sched quiet;
            quiet.max_steps = 20'000'000'000ull;
            const u64 ref_from = sim::steps();
            auto strip = [&](Row row) { row[static_cast<std::size_t>(did)] = "-"; return row; };
            for (auto &t : used) {
                if (t.foreign) continue;
                sim::start_sched(quiet);
                std::vector<const Track *> one{&t};
                Out o = pipeline(net, ref_data, &one, 0, {});
                sim::stop_sched();
                sim::check(o.seen.size() == 1 and not o.seen[0].threw, "reference-failed", "a track matched alone fails");
                if (console == 1) ref_console[t.id] = o.console;
                else {
                    sim::check(o.match.size() == 1, "result-count", "a track matched alone gives " + std::to_string(o.match.size()) + " results");
                    sim::check(o.match[0][0] == t.id, "wrong-id", "result of '" + t.id + "' carries id '" + o.match[0][0] + "'");
                    sim::check(not yes(o.match[0][static_cast<std::size_t>(aid)]), "aborted-without-limit",
                            "a track matched far below its time limit is marked aborted");
                    ref_match[t.id].push_back(strip(o.match[0]));
                    ref_cand[t.id] = o.cand;
                }
                ref_reads[t.id] = o.seen[0].reads;
            }

            // the run under test
            sim::Sched s = random_sched(r);
            s.races = s04;
            if (dr.chance(0.5)) { s.p_clock_jump = 0.2; s.clock_jump_ns = 3000; }     // measured times of other machines
            s.max_steps += 10 * (sim::steps() - ref_from);   // no progress within ten times the reference cost: stuck
            std::map<std::string, std::pair<u64, u64>> jumps;
            if (s05) {
                for (auto &t : used) {
                    const u64 reads = ref_reads[t.id];
                    if (r.chance(0.4) and reads > 2) jumps[t.id] = {1 + r.below(reads - 1), 2'000'000'000};
                }
                if (r.chance(0.4)) { s.p_stall = 0.01; s.stall_ns = 400'000'000; }
                if (r.chance(0.3)) { s.p_clock_jump = 0.002; s.clock_jump_ns = 1'500'000'000; }
            }
            const double alloc_p = (fail_class == 3 and not s05 and not s07 and not s03) ? 0.0005 : 0.0;
            sim::IoPlan io;
            if (s07 or r.chance(0.2)) { io.p_short_write = 0.3; io.p_eintr = 0.2; io.p_short_read = 0.2; }
            if (s03) {
                io.only = "es.csv";   // matches.csv and candidates.csv
                switch (r.below(5)) {
                    case 0: io.p_open_fail = 0.6; break;
                    case 1: io.p_enospc = 0.3; io.persistent_enospc = true; break;
                    case 2: io.p_enospc = 0.3; break;
                    case 3: io.p_eio_write = 0.3; break;
                    default: break;
                }
            }
            // in console mode files of earlier runs stay as they are
            const std::string earlier = "written earlier";
            sim::io_plan(io);
            std::vector<const Track *> order;
            for (auto &t : used) order.push_back(&t);
            mute.text.clear();
            sim::start_sched(s);
            Out o = pipeline(net, data, mode == 3 ? &order : nullptr, alloc_p, jumps, s03, console == 1 ? earlier : std::string{});
            sim::stop_sched();
            const bool hard = o.hard;
            sim::io_reset();
            if (s03) { stored(data, used, o, ref_match, ref_cand, strip, cand, hard, mute.text); return; }
            if (console == 1) {
                sim::check(slurp(c.dir + "/matches.csv") == earlier, "console-file", "console mode changed matches.csv");
                if (cand) sim::check(slurp(c.dir + "/candidates.csv") == earlier, "console-file", "console mode changed candidates.csv");
            }

            std::map<std::string, std::vector<Row>> got;
            for (auto &row : o.match) got[row[0]].push_back(row);
            std::map<std::string, std::vector<Row>> got_cand;
            for (auto &row : o.cand) got_cand[row[0]].push_back(row);
            std::map<std::string, Seen> seen;
            for (auto &x : o.seen) {
                sim::check(not seen.count(x.id), "track-repeated", "track '" + x.id + "' was matched twice");
                seen[x.id] = x;
            }
            u64 rows = 0, threw = 0, aborted = 0;
            for (auto &t : used) {
                auto it = seen.find(t.id);
                sim::check(it != seen.end(), "track-lost", "track '" + t.id + "' was never matched although all " + std::to_string(used.size()) + " tracks were read");
                const bool failed = it->second.threw;
                threw += failed;
                if (failed and not t.foreign) sim::check(it->second.starved, "track-failed", "track '" + t.id + "' fails here but not alone");
                if (t.foreign) { sim::check(failed, "foreign-accepted", "a track in another coordinate system was matched"); }
                if (console == 1) continue;
                auto g = got.find(t.id);
                const std::size_t n = g == got.end() ? 0 : g->second.size();
                if (t.foreign) { sim::check(n == 0, "result-invented", "a failed track has a result"); continue; }
                if (failed) { sim::check(n <= 1, "result-repeated", "a failed track has " + std::to_string(n) + " results"); }
                else sim::check(n == 1, n ? "result-repeated" : "result-lost", "track '" + t.id + "' has " + std::to_string(n) + " results (threads " + std::to_string(threads) + ")");
                if (n == 0) continue;
                ++rows;
                const Row row = g->second[0];
                if (it->second.starved) { sim::count("probe:starved-track-with-result"); continue; }   // its own row may be cut short
                const std::string &ab = row[static_cast<std::size_t>(aid)];
                const bool is_aborted = yes(ab);
                if (limit > 0 and is_aborted) {
                    ++aborted;
                    const u64 spent = it->second.end - it->second.start;
                    sim::check(static_cast<double>(spent) >= limit * 1e9, "aborted-without-limit", "aborted after " + std::to_string(spent) + " ns with a limit of " + num(limit) + " s");
                    // the input columns do not depend on how far matching came
                    const int tc = col(data.match_output.columns, "track");
                    sim::check(row[static_cast<std::size_t>(tc)] == ref_match[t.id][0][static_cast<std::size_t>(tc)], "track-altered", "input geometry of an aborted track changed");
                } else {
                    sim::check(not is_aborted, "aborted-without-limit", "aborted although no limit is set");
                    sim::check(strip(row) == ref_match[t.id][0], "result-differs", "track '" + t.id + "' matched alone: " + join(ref_match[t.id][0]).substr(0, 1500) +
                            " || here: " + join(strip(row)).substr(0, 1500) + " || options " + a.text());
                    if (cand and not failed) sim::check(got_cand[t.id] == ref_cand[t.id], "candidates-differ", "candidates of '" + t.id + "': " + std::to_string(got_cand[t.id].size()) +
                            " rows, matched alone " + std::to_string(ref_cand[t.id].size()));
                }
                const u64 reads = ref_reads[t.id];
                if (s05 and it->second.jumped and reads >= 8 and jumps.count(t.id) and jumps[t.id].first >= 1 and jumps[t.id].first <= reads / 2) {
                    sim::check(is_aborted, "limit-ignored", "the clock passed the limit at clock read " + std::to_string(jumps[t.id].first) + " of " + std::to_string(reads) + " but track '" + t.id + "' is not aborted");
                    sim::count("probe:limit-reached-early");
                }
                if (s05 and is_aborted and it->second.jumped and jumps.count(t.id)) {
                    // once the limit is reached no more work than winding up may follow
                    sim::check(it->second.reads <= reads, "limit-overrun", "an aborted track read the clock more often than a complete one");
                }
            }
            for (auto &[id, v] : got) sim::check(std::any_of(used.begin(), used.end(), [&](auto &t) { return t.id == id; }), "result-invented", "result for unknown id '" + id + "'");
            sim::check(seen.size() == used.size(), "track-invented", "more tracks matched than read");
            sim::check(o.max_running <= threads, "too-many-workers", std::to_string(o.max_running) + " tracks at once with " + std::to_string(threads) + " threads");

            // candidates of one track are never interrupted by another one's
            std::set<std::string> closed;
            std::string cur;
            bool any = false;
            for (auto &row : o.cand) {
                if (any and row[0] != cur) { closed.insert(cur); }
                sim::check(not closed.count(row[0]), "rows-interleaved", "candidate rows of '" + row[0] + "' are interrupted");
                cur = row[0];
                any = true;
            }

            // console: whole lines only
            if (console == 1) {
                std::multiset<std::string> want, have;
                for (auto &[id, t] : ref_console) {
                    std::stringstream ss{t};
                    for (std::string l; std::getline(ss, l);) if (not seen[id].threw) want.insert(l);
                }
                std::stringstream ss{o.console};
                for (std::string l; std::getline(ss, l);) have.insert(l);
                if (alloc_p == 0 and not s05) {
                    sim::check(have == want, "console-lines", std::to_string(have.size()) + " lines, expected " + std::to_string(want.size()) + "; first: " + (have.empty() ? "" : have.begin()->substr(0, 200)));
                    if (threads == 1 and fail_class != 2) {
                        std::string w;
                        if (mode == 3) { for (auto &t : used) w += ref_console[t.id]; sim::check(w == o.console, "console-order", "single threaded console output is not in input order"); }
                    }
                }
                sim::check(o.console.empty() or o.console.back() == '\n', "console-lines", "last line is not terminated");
                sim::count("probe:console");
            } else if (console == 2 and alloc_p == 0) {
                std::stringstream ss{o.console};
                std::size_t lines = 0;
                bool aggregated = false;
                for (std::string l; std::getline(ss, l);) {
                    if (l.rfind("Match ", 0) == 0) {
                        ++lines;
                        sim::check(l.rfind("Match " + std::to_string(lines) + " with id '", 0) == 0 or strange, "console-lines", "verbose line out of sequence: " + l.substr(0, 200));
                        sim::check(l.find("Match ", 6) == std::string::npos or strange, "console-lines", "two lines run together: " + l.substr(0, 300));
                    } else if (l.rfind("Matches count: ", 0) == 0) {
                        aggregated = true;
                        sim::check(l.rfind("Matches count: " + std::to_string(rows) + ",", 0) == 0, "console-totals", "summary '" + l.substr(0, 60) + "' with " + std::to_string(rows) + " results");
                    } else sim::check(strange, "console-lines", "unexpected line: " + l.substr(0, 200));
                }
                sim::check(lines == rows, "console-lines", std::to_string(lines) + " lines for " + std::to_string(rows) + " results");
                sim::check(aggregated == (rows > 0), "console-totals", "summary line missing or unexpected");
            }
            if (o.max_running > 1) sim::count("probe:parallel-matching");
            if (threw) sim::count("probe:failed-tracks", threw);
            if (aborted) sim::count("probe:aborted-tracks", aborted);
            if (console == 2) sim::count("probe:verbose");
            std::set<int> tids;
            for (auto &x : o.seen) tids.insert(x.tid);
            if (tids.size() > 1) sim::count("probe:several-workers-used");
            sim::count("tracks", used.size());
            sim::count("results", rows);
            sim::note(static_cast<u64>(rows));
            u64 h = 0;
            for (auto &x : o.seen) h = sim::mix(h, sim::hash_str(x.id) + static_cast<u64>(x.tid));
            for (auto &x : o.match) h = sim::mix(h, sim::hash_str(x[0]));
            sim::state(h);
            if (used.size() > 1 and rows + threw > 1) sim::nontrivial();
            if (console == 1) sim::nontrivial();
        }
    };

}
