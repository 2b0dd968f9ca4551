// Minimal stand-in for Vincent La's csv-parser, which is not installed here: the part of its interface that
// map-matching-2 uses (writer with quoting, reader by column name or position). Only used to compile the sources.
#pragma once
#include <algorithm>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace csv {

template<class OutputStream, char Delim, char Quote, bool Flush>
class DelimWriter {
public:
    explicit DelimWriter(OutputStream &out) : _out{out} {}

    template<typename T>
    DelimWriter &operator<<(const T &record) {
        bool first = true;
        for (const auto &f : record) {
            if (not first) { _out << Delim; }
            first = false;
            std::string_view s{f};
            if (s.find_first_of(std::string{Delim, Quote, '\r', '\n'}) != std::string_view::npos) {
                _out << Quote;
                for (char c : s) {
                    if (c == Quote) { _out << Quote; }
                    _out << c;
                }
                _out << Quote;
            } else {
                _out << s;
            }
        }
        _out << '\n';
        if (Flush) { _out.flush(); }
        return *this;
    }

private:
    OutputStream &_out;
};

class CSVFormat {
public:
    CSVFormat &no_header() { _no_header = true; return *this; }
    CSVFormat &delimiter(char c) { _delim = c; return *this; }
    CSVFormat &delimiter(const std::vector<char> &c) { _delim = c.at(0); return *this; }
    CSVFormat &quote(char c) { _quote = c; return *this; }
    bool _no_header = false;
    char _delim = ',', _quote = '"';
};

class CSVField {
public:
    explicit CSVField(std::string s) : _s{std::move(s)} {}
    template<typename T = std::string>
    T get() const {
        if constexpr (std::is_same_v<T, std::string>) { return _s; }
        else if constexpr (std::is_same_v<T, std::string_view>) { return _s; }
        else if constexpr (std::is_floating_point_v<T>) { return static_cast<T>(std::stold(_s)); }
        else { return static_cast<T>(std::stoll(_s)); }
    }
private:
    std::string _s;
};

class CSVRow {
public:
    CSVRow() = default;
    CSVRow(std::vector<std::string> f, std::shared_ptr<std::vector<std::string>> names)
        : _f{std::move(f)}, _names{std::move(names)} {}
    CSVField operator[](std::size_t i) const {
        if (i >= _f.size()) { throw std::runtime_error("Index out of bounds."); }
        return CSVField{_f[i]};
    }
    CSVField operator[](const std::string &n) const {
        for (std::size_t i = 0; i < _names->size(); ++i) { if ((*_names)[i] == n) { return (*this)[i]; } }
        throw std::runtime_error("Can't find a column named " + n);
    }
    std::vector<std::string> get_col_names() const { return *_names; }
    std::size_t size() const { return _f.size(); }
private:
    std::vector<std::string> _f;
    std::shared_ptr<std::vector<std::string>> _names;
};

class CSVReader {
public:
    explicit CSVReader(std::string_view file, CSVFormat format = {}) : _names{std::make_shared<std::vector<std::string>>()} {
        std::ifstream in{std::string{file}};
        std::stringstream ss;
        ss << in.rdbuf();
        std::string s = ss.str();
        std::vector<std::string> row;
        std::string cur;
        bool q = false, any = false;
        auto end_row = [&] {
            if (any or not cur.empty()) {
                row.push_back(cur);
                if (not format._no_header and not _header) { *_names = row; _header = true; }
                else { _rows.emplace_back(row, _names); }
            }
            row.clear();
            cur.clear();
            any = false;
        };
        for (std::size_t i = 0; i < s.size(); ++i) {
            char c = s[i];
            if (q) {
                if (c == format._quote) {
                    if (i + 1 < s.size() and s[i + 1] == format._quote) { cur += c; ++i; } else { q = false; }
                } else { cur += c; }
            } else if (c == format._quote) { q = true; any = true; }
            else if (c == format._delim) { row.push_back(cur); cur.clear(); any = true; }
            else if (c == '\n') { end_row(); }
            else if (c != '\r') { cur += c; any = true; }
        }
        end_row();
    }
    std::vector<std::string> get_col_names() const { return *_names; }
    auto begin() { return _rows.begin(); }
    auto end() { return _rows.end(); }
private:
    std::shared_ptr<std::vector<std::string>> _names;
    bool _header = false;
    std::vector<CSVRow> _rows;
};

}  // namespace csv
