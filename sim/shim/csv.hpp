// Minimal stand-in for vincentlaucsb/csv-parser (not installed in this sandbox).
// Only the part of its interface the repository uses, same observable behaviour:
//  - first row is the header unless no_header() was requested
//  - RFC4180 quoting on input, rows whose column count differs are ignored
//  - the writer quotes a field exactly when it contains quote, delimiter, CR or LF
//  - row["missing"] throws std::runtime_error, get<number>() throws on non numbers
// All input goes through std::ifstream, so the simulator's stream faults reach it.
#ifndef VERIF_SHIM_CSV_HPP
#define VERIF_SHIM_CSV_HPP

#include <charconv>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <iostream>
#include <iterator>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace csv {

    class CSVFormat {
    public:
        CSVFormat &delimiter(char d) { delims = {d}; return *this; }
        CSVFormat &delimiter(const std::vector<char> &d) { delims = d; return *this; }
        CSVFormat &no_header() { header = false; return *this; }
        std::vector<char> delims{','};
        bool header{true};
    };

    class CSVField {
    public:
        explicit CSVField(std::string v) : _v{std::move(v)} {}

        template<typename T>
        T get() const {
            if constexpr (std::is_same_v<T, std::string>) {
                return _v;
            } else if constexpr (std::is_floating_point_v<T>) {
                char *end = nullptr;
                const double d = std::strtod(_v.c_str(), &end);
                while (end and *end == ' ') ++end;
                if (_v.empty() or end == _v.c_str() or *end != 0) {
                    throw std::runtime_error("Not a number.");
                }
                return static_cast<T>(d);
            } else {
                char *end = nullptr;
                const long long d = std::strtoll(_v.c_str(), &end, 10);
                if (_v.empty() or end == _v.c_str() or *end != 0) {
                    throw std::runtime_error("Not a number.");
                }
                return static_cast<T>(d);
            }
        }

    private:
        std::string _v;
    };

    class CSVRow {
    public:
        CSVRow() = default;
        CSVRow(std::shared_ptr<std::vector<std::string>> cols, std::vector<std::string> f)
            : _cols{std::move(cols)}, _f{std::move(f)} {}

        CSVField operator[](std::size_t i) const {
            if (i >= _f.size()) throw std::runtime_error("Index out of bounds.");
            return CSVField{_f[i]};
        }

        CSVField operator[](const std::string &name) const {
            for (std::size_t i = 0; i < _cols->size(); ++i) {
                if ((*_cols)[i] == name) return (*this)[i];
            }
            throw std::runtime_error("Can't find a column named " + name);
        }

        std::vector<std::string> get_col_names() const { return *_cols; }
        std::size_t size() const { return _f.size(); }

    private:
        std::shared_ptr<std::vector<std::string>> _cols;
        std::vector<std::string> _f;
    };

    class CSVReader {
    public:
        CSVReader(const std::string &filename, const CSVFormat &format)
            : _in{filename}, _format{format}, _cols{std::make_shared<std::vector<std::string>>()} {
            if (not _in) throw std::runtime_error("Cannot open file " + filename);
            if (_format.header) {
                std::vector<std::string> f;
                if (raw(f)) *_cols = std::move(f);
                _width = _cols->size();
            }
        }

        std::vector<std::string> get_col_names() const { return *_cols; }

        bool read_row(CSVRow &row) {
            std::vector<std::string> f;
            while (raw(f)) {
                if (_width == 0) _width = f.size();
                if (f.size() == _width) {
                    row = CSVRow{_cols, std::move(f)};
                    return true;
                }
                f.clear();
            }
            return false;
        }

        class iterator {
        public:
            using iterator_category = std::input_iterator_tag;
            using value_type = CSVRow;
            using difference_type = std::ptrdiff_t;
            using pointer = CSVRow *;
            using reference = CSVRow &;
            iterator() = default;
            explicit iterator(CSVReader *r) : _r{r} { ++*this; }
            CSVRow &operator*() { return _row; }
            CSVRow *operator->() { return &_row; }
            iterator &operator++() {
                if (_r and not _r->read_row(_row)) _r = nullptr;
                return *this;
            }
            bool operator==(const iterator &o) const { return _r == o._r; }
            bool operator!=(const iterator &o) const { return _r != o._r; }
        private:
            CSVReader *_r{nullptr};
            CSVRow _row{};
        };

        iterator begin() { return iterator{this}; }
        iterator end() { return iterator{}; }

    private:
        std::ifstream _in;
        CSVFormat _format;
        std::shared_ptr<std::vector<std::string>> _cols;
        std::size_t _width{0};

        bool raw(std::vector<std::string> &out) {
            out.clear();
            int c = _in.get();
            while (c == '\n' or c == '\r') c = _in.get();
            if (c == EOF) return false;
            std::string cur;
            bool quoted = false;
            for (;; c = _in.get()) {
                if (quoted) {
                    if (c == EOF) break;
                    if (c == '"') {
                        if (_in.peek() == '"') { cur.push_back('"'); _in.get(); } else quoted = false;
                    } else cur.push_back(static_cast<char>(c));
                    continue;
                }
                if (c == EOF or c == '\n') break;
                if (c == '\r') continue;
                if (c == '"' and cur.empty()) { quoted = true; continue; }
                bool is_delim = false;
                for (char d : _format.delims) is_delim |= (static_cast<char>(c) == d);
                if (is_delim) { out.push_back(std::move(cur)); cur.clear(); continue; }
                cur.push_back(static_cast<char>(c));
            }
            out.push_back(std::move(cur));
            return true;
        }
    };

    template<class OutputStream, char Delim, char Quote, bool Flush>
    class DelimWriter {
    public:
        DelimWriter(OutputStream &out, bool quote_minimal = true) : _out{out}, _min{quote_minimal} {}

        DelimWriter &operator<<(const std::vector<std::string> &rec) {
            for (std::size_t i = 0; i < rec.size(); ++i) {
                if (i) _out << Delim;
                _out << escape(rec[i]);
            }
            _out << '\n';
            if constexpr (Flush) _out.flush();
            return *this;
        }

        void flush() { _out.flush(); }

    private:
        OutputStream &_out;
        bool _min;

        std::string escape(const std::string &in) const {
            bool q = not _min;
            for (char c : in) q = q or c == Quote or c == Delim or c == '\r' or c == '\n';
            if (not q) return in;
            std::string r(1, Quote);
            for (char c : in) { if (c == Quote) r.push_back(Quote); r.push_back(c); }
            r.push_back(Quote);
            return r;
        }
    };

}

#endif
