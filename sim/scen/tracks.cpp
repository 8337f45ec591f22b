// I01: reading tracks from every supported source.
#include "match_impl.hpp"

#include "io/track/seattle_ground_truth_importer.hpp"

#include <filesystem>

namespace imp { std::pair<double, double> project(int from, int to, std::pair<double, double> p); }

namespace {

    using namespace scen;
    using sim::Rng;

    struct Line { std::vector<Pt> p; };
    struct Track { std::string id; std::vector<std::vector<Pt>> lines; };

    struct Recorder {
        using multi_track_variant_type = mm::geometry::track::multi_track_variant_type;
        std::vector<Track> got;
        void pass(multi_track_variant_type v) {
            sim::Quiet q;
            std::visit([&](auto &t) {
                Track r;
                r.id = t.id;
                for (auto &rl : t.multi_rich_line.rich_lines()) {
                    std::vector<Pt> l;
                    for (auto &p : rl.line()) l.push_back({p.template get<0>(), p.template get<1>()});
                    if (not l.empty()) r.lines.push_back(l);
                }
                got.push_back(r);
            }, v);
        }
    };

    std::string text(const Track &t) {
        std::string s = "'" + t.id + "'";
        for (auto &l : t.lines) {
            s += " (";
            for (std::size_t i = 0; i < l.size(); ++i) s += (i ? "," : "") + num(l[i].x) + " " + num(l[i].y);
            s += ")";
        }
        return s;
    }

    bool same(const Track &a, const Track &b, double tol) {
        if (a.id != b.id or a.lines.size() != b.lines.size()) return false;
        for (std::size_t i = 0; i < a.lines.size(); ++i) {
            if (a.lines[i].size() != b.lines[i].size()) return false;
            for (std::size_t k = 0; k < a.lines[i].size(); ++k) {
                if (not(std::fabs(a.lines[i][k].x - b.lines[i][k].x) <= tol and std::fabs(a.lines[i][k].y - b.lines[i][k].y) <= tol)) return false;
            }
        }
        return true;
    }

    mm::app::match_data options(Args a, Mute &mute) {
        mm::app::match_data data;
        auto all = mm::app::options_match(data);
        mm::app::po::variables_map vm;
        auto v = a.argv();
        Capture cap;
        if (not mm::app::process(static_cast<int>(v.size()) - 1, v.data(), vm, all, mm::app::MODE::MATCH)) {
            sim::violation("harness-options", mute.text + " the application refused its options: " + a.text());
        }
        data.correct(vm);
        return data;
    }

    // multiset comparison; with in_order also the sequence has to agree. Tracks may be missing only where loss is allowed.
    void judge(const std::vector<Track> &want, const std::vector<Track> &got, double tol, bool in_order, bool may_miss, const std::string &how) {
        std::vector<char> used(want.size(), 0);
        for (std::size_t i = 0; i < got.size(); ++i) {
            bool found = false;
            for (std::size_t k = 0; k < want.size() and not found; ++k) {
                if (not used[k] and same(want[k], got[i], tol)) { used[k] = 1; found = true; }
            }
            if (found) continue;
            std::string near;
            for (auto &w : want) if (w.id == got[i].id) near += " || expected " + text(w);
            sim::violation(near.empty() ? "track-invented" : "track-altered", "read " + text(got[i]) + near.substr(0, 2500) + " || " + how);
        }
        if (not may_miss) for (std::size_t k = 0; k < want.size(); ++k) sim::check(used[k], "track-lost", text(want[k]).substr(0, 1500) + " was not read || " + how);
        if (in_order and not may_miss) {
            for (std::size_t k = 0; k < want.size(); ++k) sim::check(same(want[k], got[k], tol), "track-order", "position " + std::to_string(k) + " holds " + text(got[k]).substr(0, 500) + " || " + how);
        }
    }

    struct Srs { int from{3857}, to{0}; double tol{1e-6}; };

    Srs pick_srs(sim::Ctx &c, Args &a) {
        Srs s;
        switch (c.param("srs", 0, 3)) {
            case 0: s.from = 4326; s.tol = 1e-9; break;
            case 1: s.from = 4326; s.to = 3857; s.tol = 1e-3; break;
            case 2: s.from = 3857; s.to = 4326; s.tol = 1e-8; break;
            default: break;
        }
        a("tracks-srs", std::to_string(s.from));
        if (s.to) a("tracks-transform-srs", std::to_string(s.to));
        return s;
    }

    Pt random_point(Rng &r, const Srs &s) {
        if (s.from == 4326) return {rnd(8 + 4 * r.unit()), rnd(48 + 4 * r.unit())};
        return {rnd(1000000 + 300000 * r.unit()), rnd(6100000 + 300000 * r.unit())};
    }

    Track projected(Track t, const Srs &s) {
        if (s.to) for (auto &l : t.lines) for (auto &p : l) { auto q = imp::project(s.from, s.to, {p.x, p.y}); p = {q.first, q.second}; }
        return t;
    }

    std::string two(long v) { char b[8]; std::snprintf(b, sizeof b, "%02ld", v); return b; }

    std::string iso(long sec, int sub, const char *date_time, const char *zone) {
        // one day is enough: sec < 86400
        std::string s = std::string{"2021-03-04"} + date_time + two(sec / 3600) + ":" + two(sec / 60 % 60) + ":" + two(sec % 60);
        if (sub) s += "." + std::to_string(sub);
        return s + zone;
    }

    std::string wkt_line(const std::vector<Pt> &l) {
        std::string s = "(";
        for (std::size_t i = 0; i < l.size(); ++i) s += (i ? "," : "") + num(l[i].x) + " " + num(l[i].y);
        return s + ")";
    }

    sim::IoPlan soft(Rng &r) {
        sim::IoPlan io;
        if (r.chance(0.5)) { io.p_short_read = 0.4; io.p_eintr = 0.3; }
        return io;
    }

    const char *odd[] = {"a b", "q\"x\"", "x,y", "l\nf", "ü", "0", "-1", "s;c"};

    // ------------------------------------------------------------------ CSV
    void csv(sim::Ctx &c, Rng &r) {
        const int shape = static_cast<int>(c.param("shape", 0, 2));          // 0 x/y rows, 1 WKT points, 2 WKT lines
        const int ntracks = static_cast<int>(c.param("tracks", 1, 6));
        const int maxpts = static_cast<int>(c.param("points", 1, 40));
        const bool grouped = c.param("grouped", 0, 1);
        const int time = shape == 2 ? 0 : static_cast<int>(c.param("time", 0, 6));  // 0 none, 1 iso, 2 iso with fractions, 3 numbers, 4 not parsable, 5 two columns, 6 wrong format
        const int ids = static_cast<int>(c.param("ids", 0, 4));              // 0 plain, 1 odd, 2 two columns, 3 none (rows), 4 none (whole file)
        const int files = static_cast<int>(c.param("files", 1, 3));
        const int header = static_cast<int>(c.param("header", 0, 3));        // 0,1 header, 2 none, 3 none with skipped lines
        const int delim = static_cast<int>(c.param("delimiter", 0, 2));
        const int select = static_cast<int>(c.param("select", 0, 3));
        const int skip = static_cast<int>(c.param("skip", 0, 3));
        const bool missing = c.param("missing_file", 0, 7) == 0;
        Args a;
        a("match")("input", c.dir)("output", c.dir)("network-srs", "3857");
        const Srs srs = pick_srs(c, a);
        const char d = delim == 0 ? ',' : delim == 1 ? ';' : '\t';
        if (delim) a("delimiter", delim == 1 ? ";" : "\\t");

        // columns
        std::vector<std::string> cols;
        auto shuffle = [&](auto &v) { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); };
        if (ids < 2) cols.push_back("id");
        if (ids == 2) { cols.push_back("driver"); cols.push_back("trip"); }
        if (shape == 0) { cols.push_back("x"); cols.push_back("y"); }
        else cols.push_back("geometry");
        if (time == 5) { cols.push_back("day"); cols.push_back("clock"); }
        else if (time) cols.push_back("time");
        if (r.chance(0.5)) cols.push_back("junk");
        shuffle(cols);
        auto where = [&](const char *n) { return std::to_string(std::find(cols.begin(), cols.end(), n) - cols.begin()); };
        const bool numbered = header >= 2;
        auto column = [&](const char *opt, const char *n) { if (numbered or std::string{opt} != n) a(opt, numbered ? where(n) : n); };
        if (ids < 2) column("id", "id");
        if (ids == 2) { column("id", "driver"); column("id", "trip"); a("id-aggregator", "#"); }
        if (ids >= 3) a("no-id");
        if (ids == 4) a("no-id-whole-file");
        if (shape == 0) { column("x", "x"); column("y", "y"); }
        else { a("wkt"); column("geometry", "geometry"); }
        if (time == 5) { column("time", "day"); column("time", "clock"); a("time-aggregator", " ")("time-format", "%F %T"); }
        else if (time) column("time", "time");
        else if (numbered) a("time", "none");
        if (time == 3 or time == 4) a("no-parse-time");
        if (numbered) a("no-header");
        if (header == 3 or skip == 1) a("skip-lines", "1");
        if (shape != 2) a("grouped", grouped ? "yes" : "no");

        // tracks
        struct R { std::size_t track; std::vector<std::string> f; Pt p; long key; bool whole; };
        std::vector<Track> tracks;
        std::vector<std::vector<R>> rows_of;
        for (int i = 0; i < ntracks; ++i) {
            Track t;
            std::string part1 = "d" + std::to_string(i % 2), part2 = std::to_string(i);
            t.id = ids == 2 ? part1 + "#" + part2 : ids == 1 ? odd[r.below(8)] + std::to_string(i) : "t" + std::to_string(i);
            const int parts = shape == 2 ? static_cast<int>(r.range(1, 3)) : 1;
            for (int p = 0; p < parts; ++p) {
                std::vector<Pt> l;
                const long n = shape == 2 ? r.range(2, maxpts + 1) : r.range(1, maxpts);
                for (long k = 0; k < n; ++k) l.push_back(random_point(r, srs));
                t.lines.push_back(l);
            }
            std::vector<R> rows;
            auto fields = [&](const Pt *p, long key, int sub) {
                std::vector<std::string> f;
                for (auto &n : cols) {
                    if (n == "id") f.push_back(t.id);
                    else if (n == "driver") f.push_back(part1);
                    else if (n == "trip") f.push_back(part2);
                    else if (n == "x") f.push_back(num(p->x));
                    else if (n == "y") f.push_back(num(p->y));
                    else if (n == "geometry") {
                        if (p) f.push_back((r.chance(0.5) ? "POINT(" : "Point (") + num(p->x) + " " + num(p->y) + ")");
                        else if (t.lines.size() == 1) f.push_back("LINESTRING" + wkt_line(t.lines[0]));
                        else { std::string s = "MULTILINESTRING("; for (std::size_t k = 0; k < t.lines.size(); ++k) s += (k ? "," : "") + wkt_line(t.lines[k]); f.push_back(s + ")"); }
                    } else if (n == "time") {
                        if (time == 1) f.push_back(iso(key, 0, "T", "+00:00"));
                        else if (time == 2) f.push_back(iso(key, sub, "T", "+00:00"));
                        else if (time == 3) f.push_back(std::to_string(1600000000 + key));
                        else if (time == 4) f.push_back("noon" + std::to_string(key));
                        else f.push_back("around " + std::to_string(key));
                    } else if (n == "day") f.push_back("2021-03-04");
                    else if (n == "clock") f.push_back(iso(key, 0, "", "").substr(10));
                    else f.push_back("j");
                }
                return f;
            };
            if (shape == 2) rows.push_back({tracks.size(), fields(nullptr, 0, 0), {}, 0, true});
            else {
                long key = r.range(0, 1000);
                for (auto &p : t.lines[0]) {
                    rows.push_back({tracks.size(), fields(&p, key, static_cast<int>(1 + r.below(9))), p, time == 4 or time == 6 or time == 0 ? 0 : key, false});
                    if (not r.chance(time == 2 ? 0.7 : 0.2)) key += r.range(1, 400);
                }
                if (time and r.chance(0.6)) shuffle(rows);
            }
            tracks.push_back(t);
            rows_of.push_back(rows);
        }
        std::vector<R> all;
        if (grouped or shape == 2) for (auto &v : rows_of) all.insert(all.end(), v.begin(), v.end());
        else {
            std::vector<std::size_t> at(rows_of.size(), 0);
            for (;;) {
                std::vector<std::size_t> open;
                for (std::size_t k = 0; k < rows_of.size(); ++k) if (at[k] < rows_of[k].size()) open.push_back(k);
                if (open.empty()) break;
                const std::size_t k = open[r.below(open.size())];
                all.push_back(rows_of[k][at[k]++]);
            }
        }
        {
            std::vector<R> kept;
            for (std::size_t i = 0; i < all.size(); ++i) if (c.keep(i)) kept.push_back(all[i]);
            all.swap(kept);
        }
        // files: cut anywhere
        std::vector<std::size_t> cuts{0, all.size()};
        for (int f = 1; f < files; ++f) cuts.push_back(r.below(all.size() + 1));
        std::sort(cuts.begin(), cuts.end());
        auto quote = [&](const std::string &s) {
            if (s.find_first_of("\"\n\r") == std::string::npos and s.find(d) == std::string::npos) return s;
            std::string o = "\"";
            for (char ch : s) { if (ch == '"') o += '"'; o += ch; }
            return o + "\"";
        };
        auto record = [&](const std::vector<std::string> &f) { std::string s; for (std::size_t i = 0; i < f.size(); ++i) { if (i) s += d; s += quote(f[i]); } return s + (delim == 1 ? "\r\n" : "\n"); };
        std::vector<Track> want;
        std::size_t row_no = 0;
        std::map<std::string, std::size_t> open;
        std::vector<std::vector<std::pair<long, Pt>>> points;
        std::string last;
        for (std::size_t f = 0; f + 1 < cuts.size(); ++f) {
            std::string o;
            const std::string name = c.dir + "/tracks" + std::to_string(f) + ".csv";
            if (header < 2) o += record(cols);
            if (header == 3) o += record(cols);                              // skipped as the first line
            else if (skip == 1) o += record(std::vector<std::string>(cols.size(), "junk"));
            for (std::size_t i = cuts[f]; i < cuts[f + 1]; ++i) {
                const R &row = all[i];
                o += record(row.f);
                std::string id = ids == 3 or (ids == 4 and row.whole) ? std::to_string(row_no) : ids == 4 ? std::to_string(f + (missing and f ? 1 : 0)) : tracks[row.track].id;
                ++row_no;
                if (row.whole) { Track t = tracks[row.track]; t.id = id; want.push_back(t); points.emplace_back(); continue; }
                if (grouped and id != last) open.clear();
                last = id;
                if (not open.count(id)) { open[id] = want.size(); want.push_back({id, {}}); points.emplace_back(); }
                points[open[id]].push_back({row.key, row.p});
            }
            spit(name, o);
            a("tracks", name);
            if (missing and f == 0) a("tracks", c.dir + "/absent.csv");
        }
        for (std::size_t i = 0; i < want.size(); ++i) {
            if (points[i].empty()) continue;
            std::stable_sort(points[i].begin(), points[i].end(), [](auto &x, auto &y) { return x.first < y.first; });
            std::vector<Pt> l;
            for (auto &p : points[i]) l.push_back(p.second);
            want[i].lines.push_back(l);
        }
        if (select == 0 and not want.empty()) {
            std::set<std::string> chosen;
            for (int k = 0; k < 2; ++k) chosen.insert(want[r.below(want.size())].id);
            for (auto &s : chosen) a("selector", s);
            std::vector<Track> w;
            for (auto &t : want) if (chosen.count(t.id)) w.push_back(t);
            want.swap(w);
            sim::count("probe:selected");
        }
        for (auto &t : want) t = projected(t, srs);

        Mute mute;
        auto data = options(a, mute);
        Recorder rec;
        mute.text.clear();
        sim::io_plan(soft(r));
        std::string error;
        try { mm::app::_read_csv(rec, data); } catch (const std::exception &e) { error = e.what(); }
        sim::io_reset();
        sim::check(error.empty(), "readable-refused", error + " || " + a.text());
        judge(want, rec.got, srs.tol, grouped or shape == 2, false, a.text());
        if (missing) sim::check(mute.text.find("absent.csv") != std::string::npos, "silent-loss", "a missing file is not reported");
        sim::count("tracks", want.size());
        sim::count(shape == 0 ? "probe:csv-xy" : shape == 1 ? "probe:csv-wkt-points" : "probe:csv-wkt-lines");
        if (cuts.size() > 2) sim::count("probe:several-files");
        if (all.size() > 1) sim::nontrivial();
    }

    // ------------------------------------------------------------------ GPX
    void gpx(sim::Ctx &c, Rng &r) {
        const int ntracks = static_cast<int>(c.param("tracks", 1, 5));
        const int maxpts = static_cast<int>(c.param("points", 1, 40));
        const int time = static_cast<int>(c.param("time", 0, 4));   // 0 none, 1 iso, 2 iso with fractions, 3 numbers, 4 not parsable
        const int files = static_cast<int>(c.param("files", 1, 3));
        const int hard = static_cast<int>(c.param("hard", 0, 3));
        const bool no_id = c.param("no_id", 0, 3) == 0 and hard != 0;
        Args a;
        a("match")("input", c.dir)("output", c.dir)("network-srs", "3857");
        const Srs srs = pick_srs(c, a);
        if (no_id) a("no-id");
        if (time >= 3) a("no-parse-time");
        std::vector<Track> want;
        std::size_t counter = 0, element = 0;
        for (int f = 0; f < files; ++f) {
            const std::string name = c.dir + "/tracks" + std::to_string(f) + ".gpx";
            const bool meta = r.chance(0.3);
            std::string o = "<?xml version=\"1.0\"?>\n<gpx version=\"1.1\">\n";
            if (meta) o += "<metadata><name>meta" + std::to_string(f) + "</name></metadata>\n";
            for (int i = 0; i < ntracks; ++i) {
                if (not c.keep(element++)) continue;
                Track t;
                const bool named = r.chance(0.7) or hard == 0;   // numbers depend on the files that could be opened
                t.id = "f" + std::to_string(f) + "t" + std::to_string(i);
                o += "<trk>";
                if (named) o += "<name>" + t.id + "</name>";
                const long segs = r.range(1, 3);
                for (long s = 0; s < segs; ++s) {
                    struct Q { long key; Pt p; int sub; };
                    std::vector<Q> q;
                    long key = r.range(0, 1000);
                    const long n = r.chance(0.1) ? 0 : r.range(1, maxpts);
                    for (long k = 0; k < n; ++k) {
                        q.push_back({key, random_point(r, srs), static_cast<int>(1 + r.below(9))});
                        if (not r.chance(time == 2 ? 0.7 : 0.2)) key += r.range(1, 400);
                    }
                    if (time >= 1 and time <= 3 and r.chance(0.6)) for (std::size_t k = q.size(); k > 1; --k) std::swap(q[k - 1], q[r.below(k)]);
                    o += "<trkseg>\n";
                    for (auto &p : q) {
                        o += "<trkpt lat=\"" + num(p.p.y) + "\" lon=\"" + num(p.p.x) + "\">";
                        if (time == 1) o += "<time>" + iso(p.key, 0, "T", "+00:00") + "</time>";
                        if (time == 2) o += "<time>" + iso(p.key, p.sub, "T", "+00:00") + "</time>";
                        if (time == 3) o += "<time>" + std::to_string(p.key) + "</time>";
                        if (time == 4) o += "<time>noon</time>";
                        o += "</trkpt>\n";
                    }
                    o += "</trkseg>\n";
                    if (time >= 1 and time <= 3) std::stable_sort(q.begin(), q.end(), [](auto &x, auto &y) { return x.key < y.key; });
                    std::vector<Pt> l;
                    for (auto &p : q) l.push_back(p.p);
                    if (not l.empty()) t.lines.push_back(l);
                }
                o += "</trk>\n";
                if (no_id) t.id = std::to_string(counter++);
                else if (not named) t.id = meta ? "meta" + std::to_string(f) : std::to_string(counter++);
                want.push_back(projected(t, srs));
            }
            o += "</gpx>\n";
            spit(name, o);
            a("tracks", name);
        }
        Mute mute;
        auto data = options(a, mute);
        Recorder rec;
        mute.text.clear();
        sim::IoPlan io = soft(r);
        if (hard == 0) { io.only = ".gpx"; io.p_open_fail = 0.3; }   // reading errors are up to the GPX library, which is a stub here
        sim::io_plan(io);
        std::string error;
        try { mm::app::_read_gpx(rec, data); } catch (const std::exception &e) { error = e.what(); }
        const bool failed = sim::io_failed();
        sim::io_reset();
        sim::check(failed or error.empty(), "readable-refused", error);
        const bool told = not error.empty() or not mute.text.empty();
        judge(want, rec.got, srs.tol, true, failed and told, a.text());
        if (failed) sim::count("probe:unreadable");
        sim::count("probe:gpx");
        sim::count("tracks", want.size());
        if (want.size() > 1) sim::nontrivial();
    }

    // ------------------------------------------------------------------ standard input
    void console(sim::Ctx &c, Rng &r) {
        const int n = static_cast<int>(c.param("lines", 1, 8));
        Args a;
        a("match")("input", c.dir)("output", c.dir)("network-srs", "3857")("read-line");
        const Srs srs = pick_srs(c, a);
        std::string in;
        std::vector<Track> want;
        bool bad = false, ended = false;
        for (int i = 0; i < n; ++i) {
            if (not c.keep(static_cast<u64>(i))) continue;
            const double how = r.unit();
            Track t;
            auto points = [&](long lo, long hi) { std::vector<Pt> l; for (long k = r.range(lo, hi); k > 0; --k) l.push_back(random_point(r, srs)); return l; };
            std::string line;
            if (how < 0.35) { t.lines.push_back(points(2, 12)); line = (r.chance(0.5) ? "LINESTRING" : "linestring ") + wkt_line(t.lines[0]); }
            else if (how < 0.55) { t.lines = {points(2, 6), points(2, 6)}; line = "MULTILINESTRING(" + wkt_line(t.lines[0]) + "," + wkt_line(t.lines[1]) + ")"; }
            else if (how < 0.85) {
                t.lines.push_back(points(1, 30));
                const char *sep[] = {",", ";", "|", ", "};
                const char *s = sep[r.below(4)];
                for (std::size_t k = 0; k < t.lines[0].size(); ++k) line += (k ? s : "") + std::string{"POINT("} + num(t.lines[0][k].x) + " " + num(t.lines[0][k].y) + ")";
            } else if (how < 0.97) { const char *x[] = {"POLYGON((0 0,1 1,1 0,0 0))", "LINESTRING(1 2,x y)", "hello", "MULTILINESTRING((1 2"}; line = x[r.below(4)]; if (not ended) bad = true; }
            else { in += "\n"; ended = true; continue; }
            in += (r.chance(0.3) ? "  " : "") + line + (r.chance(0.3) ? " \r\n" : "\n");
            t.id = "";
            if (not t.lines.empty() and not ended) want.push_back(projected(t, srs));
        }
        Mute mute;
        auto data = options(a, mute);
        Recorder rec;
        mute.text.clear();
        std::stringbuf buf{in};
        auto *old = std::cin.rdbuf(&buf);
        std::cin.clear();
        std::string error;
        { Capture cap; try { mm::app::_read_line(rec, data); } catch (const std::exception &e) { error = e.what(); } }
        std::cin.rdbuf(old);
        std::cin.clear();
        sim::check(error.empty(), "readable-refused", error);
        std::set<std::string> ids;
        for (auto &t : rec.got) { sim::check(ids.insert(t.id).second, "duplicate-id", "two tracks carry id '" + t.id + "'"); t.id = ""; }
        judge(want, rec.got, srs.tol, true, false, in);
        sim::check(bad == (mute.text.find("Could not parse") != std::string::npos), "silent-loss", bad ? "a line that is no track is not reported" : "reported: " + mute.text);
        sim::count("probe:standard-input");
        sim::count("tracks", want.size());
        if (want.size() > 1) sim::nontrivial();
    }

    // tracks as they were exported
    std::vector<Track> exported(const mm::app::match_data &data, const std::string &printed) {
        std::vector<Track> got;
        using P = mm::geometry::point_type<mm::geometry::cs_cartesian>;
        using L = boost::geometry::model::linestring<P>;
        using M = boost::geometry::model::multi_linestring<L>;
        auto add = [&](const std::string &id, const std::string &w) {
            M m;
            if (w.rfind("MULTI", 0) == 0) boost::geometry::read_wkt(w, m);
            else { L l; boost::geometry::read_wkt(w, l); m.push_back(l); }
            Track t{id, {}};
            for (auto &l : m) {
                std::vector<Pt> v;
                for (auto &p : l) v.push_back({p.template get<0>(), p.template get<1>()});
                if (not v.empty()) t.lines.push_back(v);
            }
            got.push_back(t);
        };
        if (data.console.console) {
            std::stringstream ss{printed};
            std::size_t n = 0;
            for (std::string l; std::getline(ss, l);) add(std::to_string(n++), l);
            return got;
        }
        const Csv csv = parse_csv(slurp(data.match_output.output + "/" + data.match_output.filename));
        sim::check(csv.error.empty(), "malformed-file", csv.error);
        for (std::size_t i = 0; i < csv.rows.size(); ++i) {
            if (i == 0) { sim::check(csv.rows[0] == Row{"id", "track"}, "malformed-file", join(csv.rows[0])); continue; }
            sim::check(csv.rows[i].size() == 2, "malformed-file", join(csv.rows[i]));
            add(csv.rows[i][0], csv.rows[i][1]);
        }
        return got;
    }

    sim::IoPlan hard_plan(sim::Ctx &c, Rng &r, const char *only) {
        sim::IoPlan io = soft(r);
        if (c.param("hard", 0, 3) == 0) { io.only = only; (r.chance(0.7) ? io.p_eio_read : io.p_open_fail) = 0.3; }
        return io;
    }

    // ------------------------------------------------------------------ lists of roads
    void list(sim::Ctx &c, Rng &r) {
        using S = MatchScenario<mm::geometry::cs_cartesian>;
        using NI = S::NI;
        using N = S::N;
        const int w = static_cast<int>(c.param("grid_w", 3, 6)), h = static_cast<int>(c.param("grid_h", 2, 4));
        const int files = static_cast<int>(c.param("files", 1, 3));
        const int form = static_cast<int>(c.param("form", 0, 2));   // 0 bare ids, 1 columns, 2 columns with header to skip
        const int mode = static_cast<int>(c.param("console", 0, 3));
        const bool unknown = c.param("unknown_road", 0, 5) == 0;
        const int hard = static_cast<int>(c.param("hard", 0, 3));
        // a grid of two-way roads, one id per road
        std::vector<Pt> nodes;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) nodes.push_back({rnd(100.0 * x + 20 * r.unit()), rnd(100.0 * y + 20 * r.unit())});
        struct Road { int a, b; std::vector<Pt> line; };
        std::vector<Road> roads;
        for (int y = 0; y < h; ++y) {
            for (int x = 0; x < w; ++x) {
                const int i = y * w + x;
                for (int j : {x + 1 < w ? i + 1 : -1, y + 1 < h ? i + w : -1}) {
                    if (j < 0) continue;
                    Road e{i, j, {nodes[static_cast<std::size_t>(i)]}};
                    if (r.chance(0.3)) e.line.push_back({rnd((nodes[static_cast<std::size_t>(i)].x + nodes[static_cast<std::size_t>(j)].x) / 2 + 9), rnd((nodes[static_cast<std::size_t>(i)].y + nodes[static_cast<std::size_t>(j)].y) / 2 + 9)});
                    e.line.push_back(nodes[static_cast<std::size_t>(j)]);
                    roads.push_back(e);
                }
            }
        }
        NI ni{};
        for (std::size_t i = 0; i < nodes.size(); ++i) ni.graph_helper().add_vertex_with_index_mapping(typename NI::vertex_data_type{i + 1, S::P{nodes[i].x, nodes[i].y}}, ni.tag_helper());
        for (std::size_t k = 0; k < roads.size(); ++k) {
            for (bool back : {false, true}) {
                typename S::edge_line_type l;
                auto pts = roads[k].line;
                if (back) std::reverse(pts.begin(), pts.end());
                for (auto &p : pts) l.emplace_back(S::P{p.x, p.y});
                using edge_type = typename NI::edge_data_type;
                ni.graph_helper().add_edge(static_cast<std::size_t>(back ? roads[k].b : roads[k].a), static_cast<std::size_t>(back ? roads[k].a : roads[k].b),
                        edge_type{1000 + k, typename edge_type::rich_line_type{std::move(l)}});
            }
        }
        auto net = std::make_unique<N>();
        net->graph_helper().from_adjacency_list(ni.graph_helper(), ni.tag_helper());

        Args a;
        a("match")("input", c.dir)("output", c.dir)("filename", "tracks.csv")("network-srs", "3857")("tracks-srs", "3857")("tracks-file-type", "list");
        if (mode == 1) a("console");
        if (form) a("delimiter", "\\s")("id", "1");
        else a("delimiter", "");
        if (form == 2) a("skip-lines", "2");
        std::vector<Track> want;
        std::vector<bool> broken;
        for (int f = 0; f < files; ++f) {
            const std::string name = c.dir + "/route" + std::to_string(f) + ".list";
            Track t{std::to_string(f), {}};
            std::vector<std::size_t> ids;
            // drives of at least two roads without turning around; separate drives do not touch
            std::set<int> touched;
            const int drives = static_cast<int>(r.range(1, 2));
            for (int q = 0; q < drives; ++q) {
                int at = static_cast<int>(r.below(nodes.size()));
                int came = -1;
                std::set<int> mine;
                std::vector<std::size_t> path;
                std::vector<Pt> l;
                const long len = r.range(2, 9);
                bool ok = not touched.count(at);
                if (ok) mine.insert(at);
                while (ok and static_cast<long>(path.size()) < len) {
                    std::vector<std::pair<std::size_t, int>> next;
                    for (std::size_t k = 0; k < roads.size(); ++k) {
                        const int o = roads[k].a == at ? roads[k].b : roads[k].b == at ? roads[k].a : -1;
                        if (o < 0 or o == came or touched.count(o)) continue;
                        next.push_back({k, o});
                    }
                    if (next.empty()) break;
                    auto [k, o] = next[r.below(next.size())];
                    auto pts = roads[k].line;
                    if (roads[k].a != at) std::reverse(pts.begin(), pts.end());
                    l.insert(l.end(), pts.begin() + (l.empty() ? 0 : 1), pts.end());
                    path.push_back(k);
                    came = at;
                    at = o;
                    mine.insert(o);
                }
                if (path.size() < 2) continue;
                touched.insert(mine.begin(), mine.end());
                ids.insert(ids.end(), path.begin(), path.end());
                t.lines.push_back(l);
            }
            std::string o;
            if (form == 2) o += "a route\nn id\n";
            const bool bad = unknown and f == 0 and not ids.empty();
            for (std::size_t k = 0; k < ids.size(); ++k) {
                const long rep = r.chance(0.2) ? 2 : 1;   // the same road twice in a row is one road
                for (long q = 0; q < rep; ++q) {
                    const std::string id = bad and k == ids.size() / 2 ? "77" : std::to_string(1000 + ids[k]);
                    o += form ? "x " + id + " " + std::to_string(k) + "\n" : id + "\n";
                }
            }
            if (ids.size() > 1 and r.chance(0.5)) o.pop_back();   // no line feed at the end of the file
            spit(name, o);
            a("tracks", name);
            broken.push_back(bad or ids.empty());
            if (not broken.back()) want.push_back(t);
        }
        if (c.param("missing_file", 0, 7) == 0) a("tracks", c.dir + "/absent.list");
        const bool any_broken = std::count(broken.begin(), broken.end(), true) > 0;

        mm::app::set_global_verbose_quiet(mode == 2, true);
        Mute mute;
        auto data = options(a, mute);
        mute.text.clear();
        sim::IoPlan io = soft(r);
        if (hard == 0) { io.only = ".list"; (r.chance(0.7) ? io.p_eio_read : io.p_open_fail) = 0.3; }
        std::string error, printed;
        sim::Sched s = random_sched(r);
        sim::io_plan(io);
        sim::start_sched(s);
        {
            Capture cap;
            try { mm::app::_read_edge_list(net->graph(), data); } catch (const std::exception &e) { error = e.what(); if (error.empty()) error = "?"; }
            printed = cap.text;
        }
        sim::stop_sched();
        const bool failed = sim::io_failed();
        sim::io_reset();
        sim::check(failed or error.empty(), "readable-refused", error + " || " + a.text());
        const bool told = not error.empty() or not mute.text.empty();
        if (any_broken) sim::check(told, "silent-loss", "a list with an unknown road is not reported");
        auto got = exported(data, printed);
        if (mode == 1) for (std::size_t i = 0; i < got.size() and not failed; ++i) if (i < want.size()) got[i].id = want[i].id;
        if (mode == 1 and failed) for (auto &t : got) for (auto &x : want) { t.id = x.id; if (same(x, t, 1e-6)) break; }
        judge(want, got, 1e-6, true, failed and told, a.text());
        if (failed) sim::count("probe:unreadable");
        if (any_broken) sim::count("probe:unknown-road");
        sim::count("probe:road-lists");
        sim::count("tracks", want.size());
        if (not want.empty()) sim::nontrivial();
    }

    // ------------------------------------------------------------------ Seattle ground truth
    void seattle(sim::Ctx &c, Rng &r) {
        const int nroads = static_cast<int>(c.param("roads", 1, 12));
        const int mode = static_cast<int>(c.param("console", 0, 3));
        const int hard = static_cast<int>(c.param("hard", 0, 3));
        const int wrong = static_cast<int>(c.param("wrong", 0, 9));    // 0 unknown road, 1 one-way road backwards
        Args a;
        a("match")("input", c.dir)("output", c.dir)("filename", "tracks.csv")("network-srs", "3857")("tracks-file-type", "seattle");
        const Srs srs = pick_srs(c, a);
        if (mode == 1) a("console");
        const std::string nl = r.chance(0.3) ? "\r\n" : "\n";
        std::string net = "Edge ID\tFrom Node ID\tTo Node ID\tTwo Way\tSpeed (m/s)\tVertex Count\tLINESTRING()" + nl;
        std::string route = "Edge ID\tTraversed From to To" + nl;
        Track t{"0", {{}}};
        Pt at = random_point(r, srs);
        bool any_wrong = false;
        for (int i = 0; i < nroads; ++i) {
            if (not c.keep(static_cast<u64>(i))) continue;
            std::vector<Pt> l{at};
            for (long k = r.range(1, 5); k > 0; --k) l.push_back(random_point(r, srs));
            at = l.back();
            const bool forward = r.chance(0.5), two_way = not forward or r.chance(0.5);
            auto stored = l;
            if (not forward) std::reverse(stored.begin(), stored.end());
            const bool one_way = wrong == 1 and not forward and not any_wrong, unknown = wrong == 0 and i == nroads / 2;
            any_wrong = any_wrong or one_way or unknown;
            net += std::to_string(500 + i) + "\t1\t2\t" + (two_way and not one_way ? "1" : "0") + "\t10\t" + std::to_string(l.size()) + "\tLINESTRING" + wkt_line(stored) + nl;
            route += std::to_string(unknown ? 9 : 500 + i) + "\t" + (forward ? "1" : "0") + nl;
            t.lines[0].insert(t.lines[0].end(), l.begin() + (t.lines[0].empty() ? 0 : 1), l.end());
        }
        if (r.chance(0.5) and route.size() > 40) route.erase(route.size() - nl.size());
        spit(c.dir + "/road_network.txt", net);
        spit(c.dir + "/ground_truth_route.txt", route);
        a("tracks", c.dir + "/road_network.txt")("tracks", c.dir + "/ground_truth_route.txt");
        std::vector<Track> want;
        if (not any_wrong) want.push_back(projected(t, srs));

        mm::app::set_global_verbose_quiet(mode == 2, true);
        Mute mute;
        auto data = options(a, mute);
        mute.text.clear();
        sim::IoPlan io = soft(r);
        if (hard == 0) { io.only = ".txt"; (r.chance(0.7) ? io.p_eio_read : io.p_open_fail) = 0.4; }
        std::string error, printed;
        sim::Sched s = random_sched(r);
        sim::io_plan(io);
        sim::start_sched(s);
        {
            Capture cap;
            try { mm::app::_read_seattle(data); } catch (const std::exception &e) { error = e.what(); if (error.empty()) error = "?"; }
            printed = cap.text;
        }
        sim::stop_sched();
        const bool failed = sim::io_failed();
        sim::io_reset();
        sim::check(failed or any_wrong or error.empty(), "readable-refused", error + " || " + a.text());
        const bool told = not error.empty() or not mute.text.empty();
        if (any_wrong and not failed) sim::check(told, "silent-loss", "a route over an impossible road is not reported");
        auto got = exported(data, printed);
        for (auto &x : want) if (x.lines[0].empty()) x.lines.clear();
        judge(want, got, srs.to ? srs.tol : 1e-6, true, failed and told, a.text());
        if (failed) sim::count("probe:unreadable");
        if (any_wrong) sim::count("probe:unknown-road");
        sim::count("probe:seattle");
        sim::count("tracks", want.size());
        if (nroads > 1) sim::nontrivial();
    }

    void run(sim::Ctx &c) {
        mm::geometry::enable_cache();
        Rng r = c.rng("tracks");
        switch (c.param("source", 0, 7)) {
            case 4: gpx(c, r); break;
            case 5: console(c, r); break;
            case 6: list(c, r); break;
            case 7: seattle(c, r); break;
            default: csv(c, r); break;
        }
        sim::state(c.seed);
    }

    sim::Register reg{"I01", run,
            "app options and track readers: CSV grouping and ordering, GPX tracks, standard input, road lists and Seattle ground truth with their exporters and printers, reprojection",
            "tokenizers of CSV and GPX (libraries are not installed: minimal replacements), standard input and console replaced by buffers; threads, clock and file calls simulated"};

}
