// Minimal stand-in for gpxlib, which is not installed here: the part of its interface that map-matching-2 uses
// (tracks, segments and points of a gpx document). Only used to compile and run the sources.
#pragma once
#include <cctype>
#include <istream>
#include <iterator>
#include <list>
#include <memory>
#include <string>
#include <utility>

namespace gpx {

class Text {
public:
    const std::string &getValue() const { return _value; }
    std::string _value;
};

template<typename T>
class List {
public:
    std::list<T *> &list() { return _list; }
    T *add() { _own.push_back(std::make_unique<T>()); _list.push_back(_own.back().get()); return _list.back(); }
private:
    std::list<T *> _list;
    std::list<std::unique_ptr<T>> _own;
};

class WPT {
public:
    Text &lat() { return _lat; }
    Text &lon() { return _lon; }
    Text &time() { return _time; }
    Text &name() { return _name; }
    Text &ele() { return _ele; }
private:
    Text _lat, _lon, _time, _name, _ele;
};

class TRKSeg {
public:
    List<WPT> &trkpts() { return _points; }
private:
    List<WPT> _points;
};

class TRK {
public:
    Text &name() { return _name; }
    List<TRKSeg> &trksegs() { return _segments; }
private:
    Text _name;
    List<TRKSeg> _segments;
};

class Metadata {
public:
    Text &name() { return _name; }
private:
    Text _name;
};

class GPX {
public:
    List<TRK> &trks() { return _tracks; }
    List<WPT> &wpts() { return _waypoints; }
    Metadata &metadata() { return _metadata; }
private:
    List<TRK> _tracks;
    List<WPT> _waypoints;
    Metadata _metadata;
};

class Report {};

class Parser {
public:
    explicit Parser(Report *) {}

    // the documents have elements, attributes and texts only; the last document stays with the parser
    GPX *parse(std::istream &in) {
        _text.assign(std::istreambuf_iterator<char>{in}, {});
        _at = 0, _error.clear();
        _gpx = std::make_unique<GPX>();
        std::list<std::string> path;
        TRK *track = nullptr;
        TRKSeg *segment = nullptr;
        WPT *point = nullptr;
        bool any = false;
        while (_error.empty()) {
            std::string text;
            while (_at < _text.size() and _text[_at] != '<') { text += _text[_at++]; }
            if (not path.empty()) {
                const auto parent = path.size() > 1 ? *std::next(path.rbegin()) : std::string{};
                if (path.back() == "name" and parent == "metadata") { _gpx->metadata().name()._value += text; }
                else if (path.back() == "name" and parent == "trk") { track->name()._value += text; }
                else if (path.back() == "time" and parent == "trkpt") { point->time()._value += text; }
            }
            if (_at >= _text.size()) { break; }
            const auto end = _text.find('>', _at);
            if (end == std::string::npos) { return fail("unfinished element"); }
            std::string e = _text.substr(_at + 1, end - _at - 1);
            _at = end + 1;
            if (e.empty()) { return fail("empty element"); }
            if (e[0] == '?' or e[0] == '!') { continue; }
            if (e[0] == '/') {
                if (path.empty() or path.back() != e.substr(1)) { return fail("mismatched tag"); }
                path.pop_back();
                continue;
            }
            const bool closed = e.back() == '/';
            if (closed) { e.pop_back(); }
            std::string name;
            std::size_t i = 0;
            while (i < e.size() and not std::isspace(static_cast<unsigned char>(e[i]))) { name += e[i++]; }
            if (path.empty()) { if (name != "gpx" or any) { return fail("not a gpx document"); } any = true; }
            const auto parent = path.empty() ? std::string{} : path.back();
            if (name == "trk" and parent == "gpx") { track = _gpx->trks().add(); }
            else if (name == "trkseg" and parent == "trk") { segment = track->trksegs().add(); }
            else if (name == "trkpt" and parent == "trkseg") { point = segment->trkpts().add(), attributes(e, i, *point); }
            else if (name == "wpt" and parent == "gpx") { attributes(e, i, *_gpx->wpts().add()); }
            if (not closed) { path.push_back(name); }
        }
        if (not any or not path.empty()) { return fail("unfinished document"); }
        return _gpx.get();
    }

    const std::string &errorText() const { return _error; }
    int errorLineNumber() const { return 1; }
    int errorColumnNumber() const { return static_cast<int>(_at); }

private:
    std::string _text, _error;
    std::size_t _at{0};
    std::unique_ptr<GPX> _gpx;

    GPX *fail(const char *why) { _error = why; _gpx.reset(); return nullptr; }

    static void attributes(const std::string &e, std::size_t i, WPT &p) {
        while (i < e.size()) {
            while (i < e.size() and std::isspace(static_cast<unsigned char>(e[i]))) { ++i; }
            std::string key, value;
            while (i < e.size() and e[i] != '=') { key += e[i++]; }
            if (i + 1 >= e.size()) { return; }
            const char quote = e[++i];
            for (++i; i < e.size() and e[i] != quote; ++i) { value += e[i]; }
            ++i;
            if (key == "lat") { p.lat()._value = value; } else if (key == "lon") { p.lon()._value = value; }
        }
    }
};

}
