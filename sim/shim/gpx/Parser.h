// Minimal stand-in for gpxlib (not installed in this sandbox): the accessors the repository uses,
// over a small XML reader. A malformed document yields a null root with error text and position.
#ifndef VERIF_SHIM_GPX_PARSER_H
#define VERIF_SHIM_GPX_PARSER_H

#include <istream>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <vector>

namespace gpx {

    class ReportIF;

    class Value {
    public:
        const std::string &getValue() const { return _v; }
        std::string _v;
    };

    template<typename T>
    class List {
    public:
        std::list<T *> &list() { return _raw; }
        T *make() { _own.push_back(std::make_unique<T>()); _raw.push_back(_own.back().get()); return _raw.back(); }
    private:
        std::vector<std::unique_ptr<T>> _own;
        std::list<T *> _raw;
    };

    class WPT {
    public:
        Value &lat() { return _lat; }
        Value &lon() { return _lon; }
        Value &time() { return _time; }
        Value _lat, _lon, _time;
    };

    class TRKSeg {
    public:
        List<WPT> &trkpts() { return _p; }
        List<WPT> _p;
    };

    class TRK {
    public:
        Value &name() { return _name; }
        List<TRKSeg> &trksegs() { return _s; }
        Value _name;
        List<TRKSeg> _s;
    };

    class Metadata {
    public:
        Value &name() { return _name; }
        Value _name;
    };

    class GPX {
    public:
        List<TRK> &trks() { return _t; }
        Metadata &metadata() { return _m; }
        List<TRK> _t;
        Metadata _m;
    };

    class Parser {
    public:
        explicit Parser(ReportIF *) {}

        GPX *parse(std::istream &in) {
            std::string s{std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()};
            _root = std::make_unique<GPX>();
            std::vector<std::string> stack;
            std::string text;
            TRK *trk = nullptr;
            TRKSeg *seg = nullptr;
            WPT *pt = nullptr;
            bool any = false;
            std::size_t i = 0;
            while (i < s.size()) {
                if (s[i] != '<') { text.push_back(s[i++]); continue; }
                if (s.compare(i, 2, "<?") == 0) { i = s.find("?>", i); if (i == std::string::npos) return fail(s, "prolog"); i += 2; continue; }
                if (s.compare(i, 4, "<!--") == 0) { i = s.find("-->", i); if (i == std::string::npos) return fail(s, "comment"); i += 3; continue; }
                const std::size_t e = s.find('>', i);
                if (e == std::string::npos) return fail(s, "unclosed token");
                std::string tag = s.substr(i + 1, e - i - 1);
                i = e + 1;
                if (not tag.empty() and tag[0] == '/') {
                    tag.erase(0, 1);
                    if (stack.empty() or stack.back() != tag) return fail(s, "mismatched tag");
                    const std::string parent = stack.size() > 1 ? stack[stack.size() - 2] : "";
                    if (tag == "name" and parent == "trk" and trk) trk->_name._v = text;
                    if (tag == "name" and parent == "metadata") _root->_m._name._v = text;
                    if (tag == "time" and parent == "trkpt" and pt) pt->_time._v = text;
                    if (tag == "trk") trk = nullptr;
                    if (tag == "trkseg") seg = nullptr;
                    if (tag == "trkpt") pt = nullptr;
                    stack.pop_back();
                    text.clear();
                    continue;
                }
                const bool selfclose = not tag.empty() and tag.back() == '/';
                if (selfclose) tag.pop_back();
                const std::string name = tag.substr(0, tag.find_first_of(" \t\r\n"));
                if (stack.empty() and (any or name != "gpx")) return fail(s, "no gpx root");
                any = true;
                if (name == "trk") trk = _root->_t.make();
                else if (name == "trkseg" and trk) seg = trk->_s.make();
                else if (name == "trkpt" and seg) {
                    pt = seg->_p.make();
                    pt->_lat._v = attr(tag, "lat");
                    pt->_lon._v = attr(tag, "lon");
                }
                text.clear();
                if (selfclose) {
                    if (name == "trk") trk = nullptr;
                    if (name == "trkseg") seg = nullptr;
                    if (name == "trkpt") pt = nullptr;
                } else stack.push_back(name);
            }
            if (not stack.empty() or not any) return fail(s, "no element found");
            return _root.get();
        }

        std::string errorText() const { return _err; }
        int errorLineNumber() const { return _line; }
        int errorColumnNumber() const { return 0; }

    private:
        std::unique_ptr<GPX> _root;
        std::string _err;
        int _line{0};

        GPX *fail(const std::string &s, const char *what) {
            _err = what;
            _line = 1;
            for (char c : s) _line += c == '\n';
            _root.reset();
            return nullptr;
        }

        static std::string attr(const std::string &tag, const std::string &name) {
            const std::size_t p = tag.find(" " + name + "=");
            if (p == std::string::npos) return {};
            const std::size_t q = p + name.size() + 2;
            if (q >= tag.size()) return {};
            const std::size_t e = tag.find(tag[q], q + 1);
            if (e == std::string::npos) return {};
            return tag.substr(q + 1, e - q - 1);
        }
    };

}

#endif
