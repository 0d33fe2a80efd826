// Strict JSON reader (RFC 8259, objects/strings/numbers/booleans/null).
#pragma once
#include <cstdlib>
#include <cctype>
#include <cstring>
#include <map>
#include <string>

struct Json {
    // flattened: "a.b.c" -> textual value; kinds: o s n b z
    std::map<std::string, std::string> v;
    std::map<std::string, char> kind;
    bool ok = false;
    std::string err;
    const char *p = nullptr;

    bool parse(const std::string &s) {
        v.clear(); kind.clear(); err.clear();
        p = s.c_str();
        ws();
        ok = value("");
        if (ok) {
            ws();
            if (*p || (size_t)(p - s.c_str()) != s.size()) { ok = false; err = "trailing data"; }
        }
        return ok;
    }
    void ws() { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') p++; }
    bool bad(const char *m) { if (err.empty()) err = std::string(m) + " at: " + std::string(p).substr(0, 30); return false; }
    bool str(std::string &o) {
        if (*p != '"') return bad("string expected");
        p++;
        o.clear();
        while (*p != '"') {
            if ((unsigned char)*p < 0x20) return bad("control character in string");
            if (*p == '\\') {
                p++;
                if (*p == 'u') { for (int i = 0; i < 4; i++) { p++; if (!isxdigit((unsigned char)*p)) return bad("bad \\u"); } }
                else if (!strchr("\"\\/bfnrt", *p) || !*p) return bad("bad escape");
            }
            o += *p++;
        }
        p++;
        return true;
    }
    bool put(const std::string &path, char k, const std::string &val) {
        if (kind.count(path)) return bad("duplicate key");
        kind[path] = k;
        v[path] = val;
        return true;
    }
    bool value(const std::string &path) {
        ws();
        if (*p == '{') {
            if (!put(path, 'o', "")) return false;
            p++;
            ws();
            if (*p == '}') { p++; return true; }
            for (;;) {
                ws();
                std::string k;
                if (!str(k)) return false;
                ws();
                if (*p != ':') return bad("':' expected");
                p++;
                if (!value(path.empty() ? k : path + "." + k)) return false;
                ws();
                if (*p == ',') { p++; continue; }
                if (*p == '}') { p++; return true; }
                return bad("',' or '}' expected");
            }
        }
        if (*p == '"') {
            std::string s;
            return str(s) && put(path, 's', s);
        }
        if (!strncmp(p, "true", 4)) { p += 4; return put(path, 'b', "true"); }
        if (!strncmp(p, "false", 5)) { p += 5; return put(path, 'b', "false"); }
        if (!strncmp(p, "null", 4)) { p += 4; return put(path, 'z', "null"); }
        const char *q = p;
        if (*p == '-') p++;
        if (!isdigit((unsigned char)*p)) return bad("value expected");
        if (*p == '0' && isdigit((unsigned char)p[1])) return bad("leading zero");
        while (isdigit((unsigned char)*p)) p++;
        if (*p == '.' || *p == 'e' || *p == 'E') return bad("unexpected non-integer");
        return put(path, 'n', std::string(q, p));
    }
    std::string get(const std::string &k) const { auto i = v.find(k); return i == v.end() ? "<missing>" : i->second; }
};
