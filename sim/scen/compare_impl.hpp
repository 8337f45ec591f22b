// S06: comparing matches with reference tracks (readers, pairing, workers, writer, printer) under the simulator.
#include "match_util.hpp"

#include "app/compare.hpp"
#include "app/settings.hpp"
#include "compare/comparator/comparator_forwarder_data.hpp"
#include "compare/comparator/comparator_forwarder_matches.hpp"
#include "compare/comparator/comparator_forwarder_compares.hpp"
#include "geometry/cache.hpp"

#include <filesystem>

namespace scen {

    namespace mm = map_matching_2;

    template<typename CS>
    struct CompareScenario {
        using P = mm::geometry::point_type<CS>;
        using MT = mm::geometry::track::multi_track_type<P>;
        using line_type = typename MT::line_type;
        using multi_line_type = typename MT::multi_line_type;
        static constexpr bool geographic = std::same_as<CS, mm::geometry::cs_geographic>;

        // halves of the unit roads of a street grid, used by the exact model: a drive is a sequence of directed unit roads
        struct Cell { int x, y; bool operator<(const Cell &o) const { return x != o.x ? x < o.x : y < o.y; } bool operator==(const Cell &o) const = default; };
        using Drive = std::vector<Cell>;
        using Road = std::pair<Cell, Cell>;

        struct Track { std::string id; std::vector<std::vector<Pt>> lines; Drive drive; int file{0}; };

        struct Expect { bool known{false}; double correct{0}, added{0}, missed{0}, mlen{0}, glen{0}; std::set<Road> c, a, m; };

        static std::string wkt(const Track &t) {
            auto pts = [](const std::vector<Pt> &l) {
                std::string s = "(";
                for (std::size_t i = 0; i < l.size(); ++i) s += (i ? "," : "") + num(l[i].x) + " " + num(l[i].y);
                return s + ")";
            };
            if (t.lines.size() == 1) return "LINESTRING" + pts(t.lines[0]);
            std::string s = "MULTILINESTRING(";
            for (std::size_t i = 0; i < t.lines.size(); ++i) s += (i ? "," : "") + pts(t.lines[i]);
            return s + ")";
        }

        static std::string quote(const std::string &s) {
            if (s.find_first_of(",\"\n\r") == std::string::npos) return s;
            std::string o = "\"";
            for (char c : s) { if (c == '"') o += '"'; o += c; }
            return o + "\"";
        }

        static std::vector<std::string> write(const std::string &dir, const std::string &prefix, const std::vector<Track> &ts, int files, bool xy, sim::Rng *times) {
            std::vector<std::string> names;
            for (int f = 0; f < files; ++f) {
                names.push_back(dir + "/" + prefix + std::to_string(f) + ".csv");
                std::string o = not xy ? "id,geometry\n" : times ? "id,x,y,time\n" : "id,x,y\n";
                for (auto &t : ts) {
                    if (t.file != f) continue;
                    if (xy and times) {
                        // the points in any order, the time tells their sequence
                        std::vector<std::string> rows;
                        long sec = times->range(0, 3000);
                        for (auto &p : t.lines[0]) {
                            char b[64];
                            std::snprintf(b, sizeof b, "2021-03-04T%02ld:%02ld:%02ld+00:00", sec / 3600, sec / 60 % 60, sec % 60);
                            sec += times->range(1, 500);
                            rows.push_back(quote(t.id) + "," + num(p.x) + "," + num(p.y) + "," + b + "\n");
                        }
                        for (std::size_t i = rows.size(); i > 1; --i) std::swap(rows[i - 1], rows[times->below(i)]);
                        for (auto &r : rows) o += r;
                    } else if (xy) for (auto &p : t.lines[0]) o += quote(t.id) + "," + num(p.x) + "," + num(p.y) + "\n";
                    else o += quote(t.id) + "," + quote(wkt(t)) + "\n";
                }
                spit(names.back(), o);
            }
            return names;
        }

        static MT make(const Track &t) {
            if (t.lines.size() == 1) {
                line_type l;
                for (auto &p : t.lines[0]) l.emplace_back(P{p.x, p.y});
                return MT{t.id, std::move(l)};
            }
            multi_line_type m;
            for (auto &q : t.lines) {
                line_type l;
                for (auto &p : q) l.emplace_back(P{p.x, p.y});
                m.emplace_back(std::move(l));
            }
            return MT{t.id, std::move(m)};
        }

        static mm::app::compare_data options(Args a) {
            mm::app::compare_data data;
            auto all = mm::app::options_compare(data);
            mm::app::po::variables_map vm;
            auto v = a.argv();
            Capture cap;
            if (not mm::app::process(static_cast<int>(v.size()) - 1, v.data(), vm, all, mm::app::MODE::COMPARE)) {
                sim::violation("harness-options", "the application refused its options: " + a.text());
            }
            data.correct(vm);
            return data;
        }

        // ---- the exact model: two drives that only ever go right and up ----
        static Expect model(const Drive *m, const Drive *g, double unit) {
            Expect e;
            unit /= 2;
            auto roads = [](const Drive &d) {
                std::set<Road> s;
                for (std::size_t i = 0; i + 1 < d.size(); ++i) {
                    const Cell a{2 * d[i].x, 2 * d[i].y}, b{2 * d[i + 1].x, 2 * d[i + 1].y}, h{(a.x + b.x) / 2, (a.y + b.y) / 2};
                    s.insert({a, h});
                    s.insert({h, b});
                }
                return s;
            };
            const std::set<Road> rm = m ? roads(*m) : std::set<Road>{}, rg = roads(*g);
            for (auto &r : rg) (rm.count(r) ? e.c : e.m).insert(r);
            for (auto &r : rm) if (not rg.count(r)) e.a.insert(r);
            e.known = true;
            e.correct = unit * static_cast<double>(e.c.size());
            e.added = unit * static_cast<double>(e.a.size());
            e.missed = unit * static_cast<double>(e.m.size());
            e.mlen = unit * static_cast<double>(rm.size());
            e.glen = unit * static_cast<double>(rg.size());
            return e;
        }

        // the unit roads that a MULTILINESTRING covers; false if it is not made of grid roads
        static bool cover(const std::string &w, double unit, std::set<Road> &out) {
            unit /= 2;
            multi_line_type m;
            boost::geometry::read_wkt(w, m);
            for (auto &l : m) {
                for (std::size_t i = 0; i + 1 < l.size(); ++i) {
                    const double x0 = l[i].template get<0>() / unit, y0 = l[i].template get<1>() / unit, x1 = l[i + 1].template get<0>() / unit, y1 = l[i + 1].template get<1>() / unit;
                    if (x0 != std::round(x0) or y0 != std::round(y0) or x1 != std::round(x1) or y1 != std::round(y1)) return false;
                    if ((x0 != x1) == (y0 != y1)) return false;
                    const int dx = (x1 > x0) - (x1 < x0), dy = (y1 > y0) - (y1 < y0);
                    Cell c{static_cast<int>(x0), static_cast<int>(y0)};
                    const Cell e{static_cast<int>(x1), static_cast<int>(y1)};
                    while (not(c == e)) {
                        const Cell n{c.x + dx, c.y + dy};
                        if (not out.insert({c, n}).second) return false;   // covered twice
                        c = n;
                    }
                }
            }
            return true;
        }

        struct Out { std::vector<Row> rows; std::string console; bool has{false}; };

        static Out collect(const mm::app::compare_data &data, const std::string &console) {
            Out o;
            o.console = console;
            if (data.console.console) return o;
            const std::string file = data.compare_output.output + "/" + data.compare_output.filename;
            Csv c = parse_csv(slurp(file, &o.has));
            sim::check(c.error.empty(), "malformed-file", "compare.csv: " + c.error);
            if (c.rows.empty()) return o;
            Row head;
            std::stringstream ss{data.compare_output.columns};
            for (std::string f; std::getline(ss, f, ',');) head.push_back(f);
            sim::check(c.rows[0] == head, "malformed-file", "compare.csv does not start with its header but with: " + join(c.rows[0]));
            for (std::size_t i = 1; i < c.rows.size(); ++i) {
                sim::check(c.rows[i] != head, "malformed-file", "header written twice");
                sim::check(c.rows[i].size() == head.size(), "malformed-file", "row with " + std::to_string(c.rows[i].size()) + " fields: " + join(c.rows[i]).substr(0, 300));
                o.rows.push_back(c.rows[i]);
            }
            return o;
        }

        // through the application, from files
        static Out from_files(const mm::app::compare_data &data) {
            if (not data.console.console) std::remove((data.compare_output.output + "/" + data.compare_output.filename).c_str());
            std::string text;
            {
                Capture cap;
                mm::app::_compare(data);
                text = cap.text;
            }
            return collect(data, text);
        }

        struct Arrival { bool match; const Track *t; };

        // pairing fed directly in any order of arrival
        static Out direct(const mm::app::compare_data &data, const std::vector<Arrival> &order) {
            if (not data.console.console) std::remove((data.compare_output.output + "/" + data.compare_output.filename).c_str());
            std::string text;
            {
                Capture cap;
                auto comparator = mm::app::_start_comparator(data);
                {
                    mm::compare::comparator_forwarder_data shared{*comparator, mm::app::_compare_settings(data)};
                    mm::compare::comparator_forwarder_compares compares{shared};
                    mm::compare::comparator_forwarder_matches matches{shared};
                    for (auto &a : order) {
                        if (a.match) matches.pass(make(*a.t));
                        else compares.pass(make(*a.t));
                    }
                    shared.finish();
                    comparator->stop();
                }
                mm::app::_join_comparator(comparator);
                text = cap.text;
            }
            return collect(data, text);
        }

        static double val(const std::string &s) { return std::strtod(s.c_str(), nullptr); }

        static bool near(double a, double b, double tol) {
            if (std::isinf(a) or std::isinf(b)) return a == b;
            return std::fabs(a - b) <= tol;
        }

        // number following a label of the summary line
        static double field(const std::string &line, const std::string &label) {
            const auto at = line.find(label);
            sim::check(at != std::string::npos, "console-totals", "summary without '" + label + "': " + line);
            return val(line.substr(at + label.size()));
        }

        static void run(sim::Ctx &c) {
            sim::Rng r = c.rng("compare");
            const int threads = static_cast<int>(c.param("threads", 1, 4));
            const int nrefs = static_cast<int>(c.param("references", 1, 9));
            const int nextra = static_cast<int>(c.param("unknown_matches", 0, 3));
            const int style = static_cast<int>(c.param("style", 0, 2));       // 0 grid drives with exact model, 1 noisy drives, 2 mixed
            const int mode = static_cast<int>(c.param("mode", 0, 3));         // 0-2 files, 3 handed over in any order
            const int console = static_cast<int>(c.param("console", 0, 3));   // 1 console, 2 verbose
            const int files = static_cast<int>(c.param("files", 1, 2));
            const int strange = static_cast<int>(c.param("strange_ids", 0, 2));
            const int dup = mode < 2 ? static_cast<int>(c.param("duplicates", 0, 2)) : 0;
            const int foreign = static_cast<int>(c.param("foreign", 0, 15)) == 0 and mode != 3;
            const int all_columns = static_cast<int>(c.param("all_columns", 0, 1));
            mm::geometry::enable_cache();
            const double unit = 100.0;
            const Grid grid = make_grid(r, 4, 4, geographic, 0);

            const char *odd[] = {"a,b", "q\"x\"", "sp ace", "line\nfeed", "ü-", "'", "0", "-1"};
            std::vector<Track> refs, matches;
            auto drive = [&](Drive d, int len) {
                while (static_cast<int>(d.size()) <= len) { Cell n = d.back(); (r.chance(0.5) ? n.x : n.y)++; d.push_back(n); }
                return d;
            };
            auto lines_of = [&](Track &t, bool exact) {
                std::vector<Pt> l;
                for (std::size_t i = 0; i < t.drive.size(); ++i) {
                    l.push_back({rnd(unit * t.drive[i].x), rnd(unit * t.drive[i].y)});
                    if (exact and r.chance(0.2) and i + 1 < t.drive.size()) {   // a point in the middle of a road changes nothing
                        l.push_back({rnd(unit * (t.drive[i].x + t.drive[i + 1].x) / 2), rnd(unit * (t.drive[i].y + t.drive[i + 1].y) / 2)});
                    }
                }
                t.lines.clear();
                if (l.size() > 3 and r.chance(0.25) and mode != 2) {
                    const std::size_t cut = 1 + r.below(l.size() - 2);
                    t.lines.push_back({l.begin(), l.begin() + static_cast<long>(cut) + 1});
                    t.lines.push_back({l.begin() + static_cast<long>(cut), l.end()});
                } else t.lines.push_back(l);
            };
            std::size_t element = 0;
            std::map<std::string, int> kind;   // 0 matched, 1 only reference, 2 only match
            for (int i = 0; i < nrefs + nextra; ++i) {
                Track g, m;
                g.id = "t" + std::to_string(i);
                if (strange and r.chance(0.5)) g.id = odd[r.below(8)] + std::to_string(i);
                const bool exact = not geographic and (style == 0 or (style == 2 and r.chance(0.5)));
                const double how = r.unit();
                if (exact) {
                    g.drive = drive(Drive{{static_cast<int>(r.range(-20, 20)), static_cast<int>(r.range(-20, 20))}}, static_cast<int>(r.range(1, 9)));
                    lines_of(g, true);
                    if (how < 0.15) m.drive = g.drive;
                    else if (how < 0.85) {   // leaves the reference and perhaps comes back
                        Drive d{g.drive.begin() + static_cast<long>(r.below(g.drive.size())), g.drive.end()};
                        if (r.chance(0.3)) { Cell b = d.front(); (r.chance(0.5) ? b.x : b.y) -= 1; d.insert(d.begin(), b); }
                        d.resize(1 + r.below(d.size()));
                        m.drive = drive(d, static_cast<int>(r.range(1, 10)));
                        if (r.chance(0.5)) {
                            // aim for a later cell of the reference
                            const Cell goal = g.drive.back();
                            Drive e{m.drive.begin(), m.drive.begin() + static_cast<long>(std::min<std::size_t>(m.drive.size(), d.size()))};
                            if (e.back().x <= goal.x and e.back().y <= goal.y) {
                                while (not(e.back() == goal)) {
                                    Cell n = e.back();
                                    if (n.x == goal.x) n.y++; else if (n.y == goal.y) n.x++; else (r.chance(0.5) ? n.x : n.y)++;
                                    e.push_back(n);
                                }
                                if (e.size() > 1) m.drive = e;
                            }
                        }
                    } else m.drive = drive(Drive{{static_cast<int>(r.range(30, 40)), static_cast<int>(r.range(30, 40))}}, 3);
                    lines_of(m, true);
                } else {
                    g.lines.push_back(make_track(r, grid, 8));
                    if (r.chance(0.2) and mode != 2) g.lines.push_back(make_track(r, grid, 5));
                    m.lines = g.lines;
                    if (how > 0.15) {
                        for (auto &l : m.lines) {
                            if (r.chance(0.5)) for (auto &q : l) if (r.chance(0.3)) { q.x = rnd(q.x + grid.unit * 30 * (r.unit() - 0.5)); q.y = rnd(q.y + grid.unit * 30 * (r.unit() - 0.5)); }
                            if (r.chance(0.3) and l.size() > 2) l.erase(l.begin() + static_cast<long>(r.below(l.size())));
                            if (r.chance(0.2)) { const std::size_t at = r.below(l.size()); for (std::size_t k = at + 1; k-- > 0;) l.push_back(l[k]); }   // drives back
                        }
                        if (r.chance(0.1)) m.lines = {make_track(r, grid, 6)};
                    }
                    for (auto *t : {&g, &m}) for (auto &l : t->lines) if (l.size() < 2) l.push_back(l[0]);
                }
                m.id = g.id;
                g.file = static_cast<int>(r.below(static_cast<u64>(files)));
                m.file = static_cast<int>(r.below(static_cast<u64>(files)));
                const bool only_ref = i < nrefs and r.chance(0.2), only_match = i >= nrefs;
                if (not c.keep(element++)) continue;
                kind[g.id] = only_ref ? 1 : only_match ? 2 : 0;
                if (not only_match) refs.push_back(g);
                if (not only_ref) matches.push_back(m);
            }
            // the same identifier twice on one side: the first one counts
            if (dup and not refs.empty() and not matches.empty()) {
                auto &v = dup == 1 ? refs : matches;
                Track again = v[r.below(v.size())];
                again.lines[0][0].x = rnd(again.lines[0][0].x + grid.unit);
                again.drive.clear();
                v.push_back(again);
            }
            for (std::size_t i = matches.size(); i > 1; --i) std::swap(matches[i - 1], matches[r.below(i)]);
            auto by_file = [](const Track &a, const Track &b) { return a.file < b.file; };
            std::stable_sort(refs.begin(), refs.end(), by_file);
            std::stable_sort(matches.begin(), matches.end(), by_file);

            Args a;
            a("compare")("output", c.dir + "/out")("filename", "compare.csv");
            a("threads", std::to_string(threads));
            const std::string cols = all_columns ? "id,duration,match,ground_truth,match_length,ground_truth_length,correct_fraction,error_fraction,correct,error_added,error_missed,corrects,error_adds,error_misses"
                    : "id,duration,match_length,ground_truth_length,correct_fraction,error_fraction,correct,error_added,error_missed";
            a("columns", cols);
            const std::string srs = geographic ? "4326" : "3857";
            a("match-srs", srs)("compare-srs", foreign ? (geographic ? "3857" : "4326") : srs);
            const bool ignore = r.chance(0.25);
            if (ignore) a("ignore-non-existent");
            if (console == 1) a("console");
            const bool xy = mode == 2, timed = xy and c.param("times", 0, 1);
            for (auto &f : write(c.dir, "ref", refs, files, xy, timed ? &r : nullptr)) a("compare-tracks", f);
            for (auto &f : write(c.dir, "match", matches, files, xy, timed ? &r : nullptr)) a("match-tracks", f);
            if (not xy) a("compare-wkt")("match-wkt");
            mm::app::set_global_verbose_quiet(console == 2, true);
            Mute mute;
            auto data = options(a);
            if (mode != 1 or r.chance(0.5)) std::filesystem::create_directory(c.dir + "/out");   // otherwise left to the application

            // which pairs there have to be
            std::map<std::string, const Track *> first_ref, first_match;
            for (auto &t : refs) first_ref.emplace(t.id, &t);
            for (auto &t : matches) first_match.emplace(t.id, &t);
            struct Pair { const Track *m, *g; };
            std::map<std::string, Pair> want;
            for (auto &[id, g] : first_ref) {
                auto m = first_match.find(id);
                if (m != first_match.end()) want[id] = {m->second, g};
                else if (not ignore) want[id] = {nullptr, g};
            }

            const auto out_exists = std::filesystem::exists(c.dir + "/out");
            auto scratch = data;
            if (not out_exists) { scratch.compare_output.output = c.dir; }
            // reference values: every pair alone, one thread, nothing disturbed
            auto col = [&](const std::string &name) {
                std::stringstream ss{data.compare_output.columns};
                int i = 0;
                for (std::string f; std::getline(ss, f, ','); ++i) if (f == name) return i;
                return -1;
            };
            auto at = [&](const Row &row, const char *name) -> const std::string & { return row[static_cast<std::size_t>(col(name))]; };
            auto strip = [&](Row row) { row[static_cast<std::size_t>(col("duration"))] = "-"; return row; };
            sim::Sched quiet;
            quiet.max_steps = 20'000'000'000ull;
            const u64 ref_from = sim::steps();
            std::map<std::string, Row> ref_row;
            std::map<std::string, std::string> ref_console;
            auto one = scratch;
            one.performance.threads = 1;
            one.comparison.ignore_non_existent = false;
            if (not foreign) {
                for (auto &[id, p] : want) {
                    sim::start_sched(quiet);
                    std::vector<Arrival> order;
                    if (p.m) order.push_back({true, p.m});
                    order.push_back({false, p.g});
                    Out o = direct(one, order);
                    sim::stop_sched();
                    if (console == 1) { ref_console[id] = o.console; continue; }
                    sim::check(o.rows.size() == 1, "pair-count", "comparing one pair gives " + std::to_string(o.rows.size()) + " results");
                    sim::check(at(o.rows[0], "id") == id, "wrong-id", "comparison of '" + id + "' carries id '" + at(o.rows[0], "id") + "'");
                    ref_row[id] = strip(o.rows[0]);
                }
            }

            // the run under test
            sim::Sched s = random_sched(r);
            s.races = r.chance(0.3);
            s.max_steps += 10 * (sim::steps() - ref_from);
            sim::IoPlan io;
            if (r.chance(0.3)) { io.p_short_write = 0.3; io.p_eintr = 0.2; io.p_short_read = 0.2; }
            const std::string file = c.dir + "/out/compare.csv", earlier = "written earlier";
            const bool kept = console == 1 and std::filesystem::exists(c.dir + "/out");
            if (kept) spit(file, earlier);
            sim::io_plan(io);
            sim::start_sched(s);
            Out o;
            if (mode == 3) {
                std::vector<Arrival> order;
                for (auto &t : refs) order.push_back({false, &t});
                for (auto &t : matches) order.push_back({true, &t});
                for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
                o = direct(data, order);
            } else o = from_files(data);
            sim::stop_sched();
            sim::io_reset();

            if (foreign) {
                // nothing can be compared across coordinate systems, but the run ends and reports nothing
                u64 both = 0;
                for (auto &[id, p] : want) both += p.m != nullptr;
                for (auto &row : o.rows) sim::check(want.count(at(row, "id")) and not want[at(row, "id")].m, "pair-invented", "compared across coordinate systems: " + join(row).substr(0, 200));
                if (console != 1) sim::check(o.rows.size() + both == want.size(), "pair-lost", "references without match lost beside pairs that cannot be compared");
                sim::count("probe:foreign");
                if (both) sim::nontrivial();
                return;
            }

            std::map<std::string, std::vector<Row>> got;
            for (auto &row : o.rows) got[at(row, "id")].push_back(row);
            u64 unmatched = 0, known = 0;
            if (console != 1) {
                for (auto &[id, p] : want) {
                    const auto it = got.find(id);
                    const std::size_t n = it == got.end() ? 0 : it->second.size();
                    sim::check(n == 1, n ? "pair-repeated" : "pair-lost", "identifier '" + id + "' has " + std::to_string(n) + " comparisons");
                    const Row row = it->second[0];
                    sim::check(strip(row) == ref_row[id], "result-differs", "pair '" + id + "' alone: " + join(ref_row[id]).substr(0, 1200) + " || here: " + join(strip(row)).substr(0, 1200));
                    const double correct = val(at(row, "correct")), added = val(at(row, "error_added")), missed = val(at(row, "error_missed")),
                            cf = val(at(row, "correct_fraction")), ef = val(at(row, "error_fraction")), ml = val(at(row, "match_length")), gl = val(at(row, "ground_truth_length"));
                    const std::string show = " || " + join(row).substr(0, 1500);
                    sim::check(cf >= 0 and cf <= 1 and ef >= 0 and correct >= 0 and added >= 0 and missed >= 0, "value-range", "out of range" + show);
                    if (not p.m) {
                        ++unmatched;
                        sim::check(ml == 0 and correct == 0 and added == 0 and (cf == 0 or gl == 0), "unmatched-values", "a reference without match counts as partly matched" + show);
                        sim::check(near(missed, gl, 1e-5) and (gl == 0 or near(ef, 1, 1e-6)), "unmatched-values", "a reference without match is not missed completely" + show);
                    }
                    // fractions follow from lengths
                    if (gl > 0) sim::check(near(ef, (added + missed) / gl, 1e-5 + 2e-6 * (1 + added + missed) / gl), "fraction", "error fraction does not follow from its lengths" + show);
                    if (ef > 0 and gl > 0 and ml > 0) sim::check(near(cf, std::min(1.0, correct / std::max(gl, ml)), 1e-5), "fraction", "correct fraction does not follow from its lengths" + show);
                    if (ef == 0) sim::check(cf == 1, "fraction", "no error but not completely correct" + show);
                    if (p.m and p.m->lines.size() == p.g->lines.size()) {
                        bool same = true;
                        for (std::size_t k = 0; k < p.m->lines.size(); ++k) {
                            same = same and p.m->lines[k].size() == p.g->lines[k].size();
                            for (std::size_t q = 0; same and q < p.m->lines[k].size(); ++q) same = p.m->lines[k][q].x == p.g->lines[k][q].x and p.m->lines[k][q].y == p.g->lines[k][q].y;
                        }
                        if (same) { sim::check(cf == 1 and ef == 0 and added == 0 and missed == 0, "identical-differs", "identical tracks differ" + show); sim::count("probe:identical"); }
                    }
                    if (not p.g->drive.empty() and (not p.m or not p.m->drive.empty())) {
                        ++known;
                        const Expect e = model(p.m ? &p.m->drive : nullptr, &p.g->drive, unit);
                        const std::string w = " || expected correct " + num(e.correct) + " added " + num(e.added) + " missed " + num(e.missed) + " for " + (p.m ? wkt(*p.m) : "nothing") + " and " + wkt(*p.g) + show;
                        sim::check(near(correct, e.correct, 1e-5) and near(added, e.added, 1e-5) and near(missed, e.missed, 1e-5), "wrong-comparison", "wrong lengths" + w);
                        sim::check(near(ml, e.mlen, 1e-5) and near(gl, e.glen, 1e-5), "wrong-comparison", "wrong track lengths" + w);
                        if (all_columns) {
                            std::set<Road> cc, ca, cm;
                            sim::check(cover(at(row, "corrects"), unit, cc) and cc == e.c, "wrong-comparison", "wrong correct parts" + w);
                            sim::check(cover(at(row, "error_adds"), unit, ca) and ca == e.a, "wrong-comparison", "wrong added parts" + w);
                            sim::check(cover(at(row, "error_misses"), unit, cm) and cm == e.m, "wrong-comparison", "wrong missed parts" + w);
                        }
                    }
                }
                sim::check(o.rows.size() == want.size(), "pair-invented", std::to_string(o.rows.size()) + " comparisons for " + std::to_string(want.size()) + " pairs");
            } else {
                if (kept) sim::check(slurp(file) == earlier, "console-file", "console mode changed compare.csv");
                std::multiset<std::string> w, h;
                auto split = [](const std::string &t, std::multiset<std::string> &out) {
                    std::size_t from = 0;
                    while (from < t.size()) {
                        auto to = t.find("\nComparison '", from + 1);
                        out.insert(t.substr(from, to == std::string::npos ? to : to + 1 - from));
                        from = to == std::string::npos ? t.size() : to + 1;
                    }
                };
                for (auto &[id, t] : ref_console) split(t, w);
                split(o.console, h);
                sim::check(w == h, "console-lines", std::to_string(h.size()) + " console blocks, expected " + std::to_string(w.size()));
                sim::count("probe:console");
            }
            if (console == 2) {
                std::stringstream ss{o.console};
                std::size_t lines = 0;
                std::string sum;
                for (std::string l; std::getline(ss, l);) {
                    if (l.rfind("Comparison ", 0) == 0) { ++lines; sim::check(strange or l.rfind("Comparison " + std::to_string(lines) + " with id '", 0) == 0, "console-lines", "verbose line out of sequence: " + l.substr(0, 200)); }
                    else if (l.rfind("Compares count: ", 0) == 0) { sim::check(sum.empty(), "console-totals", "two summaries"); sum = l; }
                    else if (l.rfind("Reading ", 0) != 0 or l.find("Compar") != std::string::npos) sim::check(strange, "console-lines", "unexpected line: " + l.substr(0, 200));
                }
                sim::check(lines == want.size(), "console-lines", std::to_string(lines) + " lines for " + std::to_string(want.size()) + " comparisons");
                sim::check(sum.empty() == want.empty(), "console-totals", "summary missing or unexpected");
                if (not sum.empty()) {
                    double tc = 0, ta = 0, tm = 0, tml = 0, tgl = 0, tcf = 0, tef = 0;
                    std::size_t pts_m = 0, pts_g = 0;
                    for (auto &row : o.rows) {
                        tc += val(at(row, "correct")); ta += val(at(row, "error_added")); tm += val(at(row, "error_missed"));
                        tml += val(at(row, "match_length")); tgl += val(at(row, "ground_truth_length")); tcf += val(at(row, "correct_fraction")); tef += val(at(row, "error_fraction"));
                    }
                    for (auto &[id, p] : want) { if (p.m) for (auto &l : p.m->lines) pts_m += l.size(); for (auto &l : p.g->lines) pts_g += l.size(); }
                    const double n = static_cast<double>(want.size());
                    sim::check(field(sum, "Compares count: ") == n, "console-totals", sum);
                    sim::check(field(sum, "ground truths points: ") == static_cast<double>(pts_g) and field(sum, "matches points: ") == static_cast<double>(pts_m), "console-totals",
                            "points " + std::to_string(pts_g) + " and " + std::to_string(pts_m) + ": " + sum);
                    const double tol = 0.006 + 1e-6 * n;
                    sim::check(near(field(sum, "ground truths length: "), tgl, tol) and near(field(sum, "matches length: "), tml, tol) and near(field(sum, "correct length: "), tc, tol) and
                            near(field(sum, "errors added: "), ta, tol) and near(field(sum, "errors missed: "), tm, tol), "console-totals", "sums do not follow from the rows: " + sum);
                    sim::check(near(field(sum, "mean correct fraction: "), tcf / n, 2e-5) and near(field(sum, "mean error fraction: "), tef / n, 2e-5), "console-totals", "means do not follow from the rows: " + sum);
                    double we = 0, wc = 1;
                    if (ta + tm > 0) we = tgl > 0 ? (ta + tm) / tgl : std::numeric_limits<double>::infinity();
                    if (we > 0) wc = tgl > 0 and tml > 0 ? std::min(1.0, tc / std::max(tgl, tml)) : 0;
                    sim::check(near(field(sum, "weighted mean correct fraction: "), wc, 2e-5) and near(field(sum, "weighted mean error fraction: "), we, 2e-5), "console-totals",
                            "weighted fractions " + num(wc) + " and " + num(we) + " expected: " + sum);
                    sim::count("probe:totals");
                }
            }
            sim::count("comparisons", want.size());
            if (unmatched) sim::count("probe:references-without-match", unmatched);
            if (known) sim::count("probe:exact-model", known);
            if (mode == 3) sim::count("probe:any-arrival-order");
            if (dup) sim::count("probe:duplicates");
            u64 h = 0;
            for (auto &row : o.rows) h = sim::mix(h, sim::hash_str(at(row, "id")));
            sim::state(h);
            sim::note(h);
            if (want.size() > 1) sim::nontrivial();
        }
    };

}
