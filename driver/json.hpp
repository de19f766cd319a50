// A small JSON reader and writer for the drivers.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>

struct J {
    enum T { Null, Bool, Int, Str, Arr, Obj } t = Null;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    const J* find(const char* k) const {
        for (auto& p : o) if (p.first == k) return &p.second;
        return nullptr;
    }
    const J& operator[](const char* k) const {
        auto f = find(k);
        if (!f) { fprintf(stderr, "driver: missing key %s\n", k); exit(3); }
        return *f;
    }
    const J& operator[](size_t k) const { return a.at(k); }
    const J& operator[](int k) const { return a.at(size_t(k)); }
    size_t size() const { return a.size(); }
    int num() const { return int(i); }
    bool b() const { return i != 0; }
    bool has(const char* k) const { return !!find(k); }
};

struct JParser {
    const char* p; const char* e;
    [[noreturn]] void fail() { fprintf(stderr, "driver: bad JSON\n"); exit(3); }
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    J val() {
        ws();
        J r;
        if (p >= e) fail();
        if (*p == '{') {
            r.t = J::Obj; ++p; ws();
            if (*p == '}') { ++p; return r; }
            while (true) {
                ws(); J k = val(); ws();
                if (*p++ != ':') fail();
                r.o.emplace_back(k.s, val());
                ws();
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return r; }
                fail();
            }
        }
        if (*p == '[') {
            r.t = J::Arr; ++p; ws();
            if (*p == ']') { ++p; return r; }
            while (true) {
                r.a.push_back(val());
                ws();
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return r; }
                fail();
            }
        }
        if (*p == '"') {
            r.t = J::Str; ++p;
            while (*p != '"') {
                if (*p == '\\') { ++p; if (*p == 'n') r.s += '\n'; else r.s += *p; ++p; }
                else r.s += *p++;
            }
            ++p;
            return r;
        }
        if (*p == 't') { r.t = J::Bool; r.i = 1; p += 4; return r; }
        if (*p == 'f') { r.t = J::Bool; r.i = 0; p += 5; return r; }
        if (*p == 'n') { p += 4; return r; }
        r.t = J::Int;
        char* end;
        r.i = strtoll(p, &end, 10);
        if (end == p) fail();
        p = end;
        return r;
    }
};
inline J parseJson(const std::string& s) { JParser q{s.data(), s.data() + s.size()}; return q.val(); }
inline J parseJsonFile(const char* fn) {
    std::ifstream f(fn, std::ios::binary);
    if (!f) { fprintf(stderr, "driver: cannot read %s\n", fn); exit(3); }
    std::stringstream ss; ss << f.rdbuf();
    return parseJson(ss.str());
}

struct JOut {
    std::string s;
    bool first = true;
    void sep() { if (!first) s += ','; first = false; }
    JOut& open(char c) { sep(); s += c; first = true; return *this; }
    JOut& close(char c) { s += c; first = false; return *this; }
    JOut& key(const char* k) { sep(); s += '"'; s += k; s += "\":"; first = true; return *this; }
    JOut& n(long long v) { sep(); s += std::to_string(v); return *this; }
    JOut& str(const std::string& v) {
        sep(); s += '"';
        for (char c : v) {
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if (c == '\n') s += "\\n";
            else if ((unsigned char)c < 32) s += '?';
            else s += c;
        }
        s += '"';
        return *this;
    }
    template <typename V> JOut& arr(const V& v) { open('['); for (auto x : v) n(x); return close(']'); }
};
