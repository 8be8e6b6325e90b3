// A strict JSON reader and value used as the oracle for JSON and UBJSON.
#pragma once
#include <string>
#include <vector>
#include <math.h>
struct J {
  enum T { NUL, TRUE_, FALSE_, NUM, STR, ARR, OBJ } t = NUL; long double n = 0; bool isint = false, odd = false; std::string s; std::vector<J> a; std::vector<std::string> k;
  J(T x = NUL) : t(x) {}
  static J i(int64_t x) { J r(NUM); r.n = x; r.isint = true; return r; }
  static J d(double x) { J r(NUM); r.n = x; return r; }
  static J str(std::string x) { J r(STR); r.s = x; return r; }
  bool operator==(const J& r) const { return t == r.t && n == r.n && s == r.s && a == r.a && k == r.k; }
  bool vague() const { if(odd) return true; for(auto& x : a) if(x.vague()) return true; return false; } // a text JSON leaves open (unpaired surrogates, numbers out of range, null characters in keys)
  static std::string esc(const std::string& s) { std::string r; char b[8]; for(char c : s) { if((unsigned char)c >= 32 && (unsigned char)c < 127) r += c; else { snprintf(b, 8, "<%02x>", (unsigned char)c); r += b; } } return r; }
  std::string show() const { char b[64]; std::string r; switch(t) { case NUL: return "null"; case TRUE_: return "true"; case FALSE_: return "false"; case NUM: snprintf(b, 64, "%.20Lg", n); return b; case STR: return "'" + esc(s) + "'"; case ARR: r = "["; for(auto& x : a) r += x.show() + ","; return r + "]"; default: r = "{"; for(size_t j = 0; j < a.size(); ++j) r += esc(k[j]) + ":" + a[j].show() + ","; return r + "}"; } }
  // strict parser
  struct P { const std::string& s; size_t p = 0; bool ok = true; P(const std::string& x) : s(x) {} int pk() { return p < s.size() ? (unsigned char)s[p] : -1; } void ws() { while(p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; } bool lit(const char* l) { size_t n = strlen(l); if(s.compare(p, n, l)) return false; p += n; return true; } };
  static int hex4(P& p) { int v = 0; for(int i = 0; i < 4; ++i) { int c = p.pk(); if(!(c >= 0 && isxdigit(c))) { p.ok = false; return 0; } v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); ++p.p; } return v; }
  static void utf8(std::string& r, uint32_t x) { if(x < 0x80) r += (char)x; else if(x < 0x800) { r += (char)(0xC0 | x >> 6); r += (char)(0x80 | (x & 63)); } else if(x < 0x10000) { r += (char)(0xE0 | x >> 12); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); } else { r += (char)(0xF0 | x >> 18); r += (char)(0x80 | (x >> 12 & 63)); r += (char)(0x80 | (x >> 6 & 63)); r += (char)(0x80 | (x & 63)); } }
  static std::string pstr(P& p, bool& odd) { std::string r; ++p.p; for(;;) { int c = p.pk(); if(c < 0x20) { p.ok = false; return r; } ++p.p; if(c == '"') return r; if(c != '\\') { r += (char)c; continue; } c = p.pk(); ++p.p; switch(c) { case '"': case '\\': case '/': r += (char)c; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
        case 'u': { int v = hex4(p); if(!p.ok) return r; if(v >= 0xD800 && v < 0xDC00) { if(p.lit("\\u")) { int w = hex4(p); if(!p.ok) return r; if(w >= 0xDC00 && w < 0xE000) { utf8(r, 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00)); break; } } odd = true; } else if(v >= 0xDC00 && v < 0xE000) odd = true; utf8(r, v); } break;
        default: p.ok = false; return r; } } }
  static void val(P& p, J& o) {
    p.ws(); int c = p.pk(); o = J();
    if(c == '"') { o.t = STR; o.s = pstr(p, o.odd); } else if(p.lit("true")) o.t = TRUE_; else if(p.lit("false")) o.t = FALSE_; else if(p.lit("null")) o.t = NUL;
    else if(c == '[') { o.t = ARR; ++p.p; p.ws(); if(p.pk() == ']') { ++p.p; return; } for(;;) { o.a.emplace_back(); val(p, o.a.back()); if(!p.ok) return; p.ws(); c = p.pk(); ++p.p; if(c == ']') return; if(c != ',') { p.ok = false; return; } } }
    else if(c == '{') { o.t = OBJ; ++p.p; p.ws(); if(p.pk() == '}') { ++p.p; return; } for(;;) { p.ws(); if(p.pk() != '"') { p.ok = false; return; } o.k.push_back(pstr(p, o.odd)); if(o.k.back().find('\0') != std::string::npos) o.odd = true; p.ws(); if(!p.ok || p.pk() != ':') { p.ok = false; return; } ++p.p; o.a.emplace_back(); val(p, o.a.back()); if(!p.ok) return; p.ws(); c = p.pk(); ++p.p; if(c == '}') return; if(c != ',') { p.ok = false; return; } } }
    else if(c == '-' || (c >= '0' && c <= '9')) { size_t b = p.p; o.t = NUM; o.isint = true; if(c == '-') ++p.p; auto dig = [&] { if(!isdigit(p.pk() < 0 ? 0 : p.pk())) { p.ok = false; return; } while(p.pk() >= '0' && p.pk() <= '9') ++p.p; }; if(p.pk() == '0') ++p.p; else dig(); if(p.ok && p.pk() == '.') { o.isint = false; ++p.p; dig(); } if(p.ok && (p.pk() == 'e' || p.pk() == 'E')) { o.isint = false; ++p.p; if(p.pk() == '+' || p.pk() == '-') ++p.p; dig(); } if(!p.ok) return; std::string t = p.s.substr(b, p.p - b); o.n = o.isint ? strtold(t.c_str(), 0) : (long double)strtod(t.c_str(), 0); if(isinf((double)o.n) || (o.isint && fabsl(o.n) > 9223372036854775807.0L)) o.odd = o.n != -9223372036854775808.0L; }
    else p.ok = false;
  }
  static bool parse(const std::string& s, J& o) { P p(s); val(p, o); p.ws(); return p.ok && p.p == s.size(); }
};
