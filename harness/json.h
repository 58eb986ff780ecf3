// A small JSON reader for the files the code under test writes.
#pragma once
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>

namespace vp {
struct J {
    char        t = 0;      // 0 invalid, n number, b bool, s string, o object, a array, z null
    double      n = 0;
    std::string s;
    std::vector<std::pair<std::string, J>> o;
    std::vector<J> a;
    const J* get(const std::string& k) const {
        for (auto& p : o) if (p.first == k) return &p.second;
        return nullptr;
    }
};
struct JParse {
    const std::string& s;
    size_t i = 0;
    bool   ok = true;
    explicit JParse(const std::string& t) : s(t) {}
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++; }
    bool eat(char c) { ws(); if (i < s.size() && s[i] == c) { i++; return true; } return false; }
    std::string str() {
        std::string o;
        if (!eat('"')) { ok = false; return o; }
        while (i < s.size() && s[i] != '"') { if (s[i] == '\\' && i + 1 < s.size()) i++; o += s[i++]; }
        if (i >= s.size()) ok = false; else i++;
        return o;
    }
    J value() {
        J v;
        ws();
        if (i >= s.size()) { ok = false; return v; }
        char c = s[i];
        if (c == '{') {
            v.t = 'o'; i++;
            if (eat('}')) return v;
            do { ws(); std::string k = str(); if (!eat(':')) ok = false; if (!ok) return v; v.o.push_back({k, value()}); } while (ok && eat(','));
            if (!eat('}')) ok = false;
        } else if (c == '[') {
            v.t = 'a'; i++;
            if (eat(']')) return v;
            do v.a.push_back(value()); while (ok && eat(','));
            if (!eat(']')) ok = false;
        } else if (c == '"') { v.t = 's'; v.s = str(); }
        else {
            size_t k = i;
            while (i < s.size() && s[i] != ',' && s[i] != '}' && s[i] != ']' && s[i] != ' ' && s[i] != '\n') i++;
            v.s = s.substr(k, i - k);
            if (v.s == "true" || v.s == "false") { v.t = 'b'; v.n = v.s == "true"; }
            else if (v.s == "null") v.t = 'z';
            else { char* e; v.n = strtod(v.s.c_str(), &e); v.t = 'n'; if (*e || v.s.empty()) ok = false; }
        }
        return v;
    }
};
inline bool parse_json(const std::string& t, J* out) {
    JParse p(t);
    *out = p.value();
    p.ws();
    return p.ok && p.i == t.size();
}
}  // namespace vp
