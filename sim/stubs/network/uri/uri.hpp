// Stand-in for cpp-netlib/uri (not available offline): the part of its interface the language server uses, with the
// behaviour its documentation and RFC 3986 give. Part of the simulator, not of the code under test.
#pragma once
#include <cstring>
#include <iterator>
#include <string>
#include <string_view>
#include <system_error>

namespace network {

class string_view
{
    std::string_view v;

public:
    string_view() = default;
    string_view(std::string_view s)
        : v(s)
    {}
    int compare(std::string_view o) const { return v.compare(o); }
    std::string to_string() const { return std::string(v); }
    void remove_prefix(size_t n) { v.remove_prefix(n); }
    size_t size() const { return v.size(); }
    bool empty() const { return v.empty(); }
    operator std::string() const { return std::string(v); }
};

class uri_syntax_error : public std::system_error
{
public:
    uri_syntax_error()
        : std::system_error(std::make_error_code(std::errc::invalid_argument), "Invalid URI syntax")
    {}
};
class percent_decoding_error : public std::system_error
{
public:
    percent_decoding_error()
        : std::system_error(std::make_error_code(std::errc::invalid_argument), "Percent decoding error")
    {}
};

class uri
{
    std::string s, scheme_, authority_, path_;
    bool has_authority_ = false, has_path_ = false;

    static bool allowed(unsigned char c)
    {
        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')
            || (c && std::strchr("-._~:/?#[]@!$&'()*+,;=%", c));
    }

public:
    explicit uri(const std::string& in)
        : s(in)
    {
        if (s.empty())
            return;
        for (unsigned char c : s)
            if (!allowed(c))
                throw uri_syntax_error();
        size_t i = 0;
        while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '+' || s[i] == '-' || s[i] == '.'))
            ++i;
        size_t pos = 0;
        if (i > 0 && i < s.size() && s[i] == ':' && isalpha((unsigned char)s[0]))
        {
            scheme_ = s.substr(0, i);
            pos = i + 1;
        }
        else
            throw uri_syntax_error();
        if (s.compare(pos, 2, "//") == 0)
        {
            pos += 2;
            size_t e = s.find_first_of("/?#", pos);
            if (e == std::string::npos)
                e = s.size();
            authority_ = s.substr(pos, e - pos);
            has_authority_ = true;
            pos = e;
        }
        size_t e = s.find_first_of("?#", pos);
        if (e == std::string::npos)
            e = s.size();
        path_ = s.substr(pos, e - pos);
        has_path_ = true;
    }
    string_view scheme() const { return string_view(scheme_); }
    bool has_path() const { return has_path_; }
    string_view path() const { return string_view(path_); }
    bool has_authority() const { return has_authority_; }
    string_view authority() const { return string_view(authority_); }
};

namespace detail {
inline int hex_val(char c)
{
    if (c >= '0' && c <= '9')
        return c - '0';
    if (c >= 'a' && c <= 'f')
        return c - 'a' + 10;
    if (c >= 'A' && c <= 'F')
        return c - 'A' + 10;
    throw percent_decoding_error();
}
inline std::string decode(const std::string& in)
{
    std::string out;
    for (size_t i = 0; i < in.size(); ++i)
    {
        if (in[i] != '%')
        {
            out.push_back(in[i]);
            continue;
        }
        if (i + 2 >= in.size())
            throw percent_decoding_error();
        out.push_back((char)(hex_val(in[i + 1]) * 16 + hex_val(in[i + 2])));
        i += 2;
    }
    return out;
}
template<typename OutputIterator>
void encode_char(char in, OutputIterator& out, const char* ignore = "")
{
    if ((in >= 'a' && in <= 'z') || (in >= 'A' && in <= 'Z') || (in >= '0' && in <= '9') || in == '-' || in == '.'
        || in == '_' || in == '~' || (in != 0 && std::strchr(ignore, in)))
    {
        *out++ = in;
        return;
    }
    static const char hex[] = "0123456789ABCDEF";
    *out++ = '%';
    *out++ = hex[((unsigned char)in) >> 4];
    *out++ = hex[((unsigned char)in) & 15];
}
} // namespace detail
} // namespace network
