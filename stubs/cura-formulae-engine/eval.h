#pragma once
// Stand-in for the (absent) cura-formulae-engine: the types and functions CuraEngine uses, with a minimal evaluator
// (numbers, quoted strings, variables, comparisons).
#include <cctype>
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include <zeus/expected.hpp>
#include <spdlog/spdlog.h>
namespace CuraFormulaeEngine {
namespace eval {
struct Value {
    std::variant<bool, std::int64_t, double, std::string, std::vector<Value>> value;
    Value() : value(false) {}
    Value(bool b) : value(b) {}
    Value(int b) : value(static_cast<std::int64_t>(b)) {}
    Value(std::int64_t b) : value(b) {}
    Value(long long b) : value(static_cast<std::int64_t>(b)) {}
    Value(double b) : value(b) {}
    Value(const char* b) : value(std::string(b)) {}
    Value(const std::string& b) : value(b) {}
    Value(const std::vector<Value>& b) : value(b) {}
    std::string toString() const {
        if (std::holds_alternative<bool>(value)) return std::get<bool>(value) ? "True" : "False";
        if (std::holds_alternative<std::int64_t>(value)) return std::to_string(std::get<std::int64_t>(value));
        if (std::holds_alternative<double>(value)) { std::string s = std::to_string(std::get<double>(value)); while (s.size() > 1 && s.back() == '0') s.pop_back(); if (! s.empty() && s.back() == '.') s.pop_back(); return s; }
        if (std::holds_alternative<std::string>(value)) return std::get<std::string>(value);
        std::string r = "["; bool f = true;
        for (const Value& v : std::get<std::vector<Value>>(value)) { if (! f) r += ", "; f = false; r += v.toString(); }
        return r + "]";
    }
};
struct error_t {};
using Result = zeus::expected<Value, error_t>;
}
namespace env {
class Environment {
public:
    virtual ~Environment() = default;
    virtual std::optional<eval::Value> get(const std::string& k) const { (void)k; return std::nullopt; }
    virtual bool has(const std::string& k) const { (void)k; return false; }
    virtual std::unordered_map<std::string, eval::Value> getAll() const { return {}; }
};
class EnvironmentMap : public Environment {
public:
    std::unordered_map<std::string, eval::Value> m;
    std::optional<eval::Value> get(const std::string& k) const override { auto i = m.find(k); if (i == m.end()) return std::nullopt; return i->second; }
    bool has(const std::string& k) const override { return m.count(k) > 0; }
};
class ChainableEnvironment : public Environment {
public:
    explicit ChainableEnvironment(const Environment* next = nullptr) : next_(next) {}
    std::optional<eval::Value> get(const std::string& k) const override { auto r = getImpl(k); if (r) return r; if (next_) return next_->get(k); return std::nullopt; }
    bool has(const std::string& k) const override { return hasImpl(k) || (next_ && next_->has(k)); }
    std::unordered_map<std::string, eval::Value> getAll() const override { return getAllImpl(); }
protected:
    virtual std::optional<eval::Value> getImpl(const std::string& k) const noexcept = 0;
    virtual bool hasImpl(const std::string& k) const noexcept = 0;
    virtual std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept = 0;
    const Environment* next_;
};
class LocalEnvironment : public ChainableEnvironment {
public:
    explicit LocalEnvironment(const Environment* next = nullptr) : ChainableEnvironment(next) {}
    void set(const std::string& k, const eval::Value& v) { m_[k] = v; }
    void add(const std::unordered_map<std::string, eval::Value>& o) { for (auto& p : o) m_[p.first] = p.second; }
protected:
    std::optional<eval::Value> getImpl(const std::string& k) const noexcept override { auto i = m_.find(k); if (i == m_.end()) return std::nullopt; return i->second; }
    bool hasImpl(const std::string& k) const noexcept override { return m_.count(k) > 0; }
    std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept override { return m_; }
private:
    std::unordered_map<std::string, eval::Value> m_;
};
inline const EnvironmentMap std_env{};
}
namespace ast {
struct ExprPtr {
    std::string text;
    eval::Result evaluate(const env::Environment* e) const {
        std::string t = text;
        auto trim = [](std::string s) { size_t a = 0, b = s.size(); while (a < b && std::isspace(static_cast<unsigned char>(s[a]))) ++a; while (b > a && std::isspace(static_cast<unsigned char>(s[b - 1]))) --b; return s.substr(a, b - a); };
        t = trim(t);
        for (const char* op : { "==", "!=", "<=", ">=", "<", ">" }) {
            size_t p = t.find(op);
            if (p != std::string::npos) {
                auto a = ExprPtr{ t.substr(0, p) }.evaluate(e); auto b = ExprPtr{ t.substr(p + std::string(op).size()) }.evaluate(e);
                if (! a.has_value() || ! b.has_value()) return eval::Result(eval::error_t{});
                std::string o(op), x = a.value().toString(), y = b.value().toString();
                char* e1; char* e2; double dx = std::strtod(x.c_str(), &e1), dy = std::strtod(y.c_str(), &e2);
                bool num = *e1 == 0 && *e2 == 0 && ! x.empty() && ! y.empty();
                int c = num ? (dx < dy ? -1 : dx > dy ? 1 : 0) : x.compare(y);
                bool r = o == "==" ? c == 0 : o == "!=" ? c != 0 : o == "<=" ? c <= 0 : o == ">=" ? c >= 0 : o == "<" ? c < 0 : c > 0;
                return eval::Result(eval::Value(r));
            }
        }
        if (t == "True") return eval::Result(eval::Value(true));
        if (t == "False") return eval::Result(eval::Value(false));
        if (t.size() >= 2 && (t[0] == '"' || t[0] == '\'') && t.back() == t[0]) return eval::Result(eval::Value(t.substr(1, t.size() - 2)));
        char* end = nullptr;
        if (! t.empty() && t.find_first_not_of("0123456789-") == std::string::npos) { long long v = std::strtoll(t.c_str(), &end, 10); if (*end == 0) return eval::Result(eval::Value(static_cast<std::int64_t>(v))); }
        double d = std::strtod(t.c_str(), &end);
        if (! t.empty() && *end == 0) return eval::Result(eval::Value(d));
        if (e) { auto v = e->get(t); if (v.has_value()) return eval::Result(v.value()); }
        return eval::Result(eval::error_t{});
    }
};
}
namespace parser {
struct error_t {};
inline zeus::expected<ast::ExprPtr, error_t> parse(std::string_view s) { if (s.empty()) return zeus::expected<ast::ExprPtr, error_t>(error_t{}); return zeus::expected<ast::ExprPtr, error_t>(ast::ExprPtr{ std::string(s) }); }
}
}
