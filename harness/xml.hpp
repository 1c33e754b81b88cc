// Reading description files: text, enough XML, numbers, names in a directory.
#ifndef VH_XML
#define VH_XML
#include "common.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <set>
namespace vh
{
static std::string slurp(std::string const &f)
{
    std::ifstream s(f);
    std::stringstream o;
    o << s.rdbuf();
    return o.str();
}
static std::string trim(std::string s)
{
    auto a = s.find_first_not_of(" \t\r\n");
    if (a == std::string::npos) return "";
    return s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1);
}
struct Node
{
    std::string tag, text;
    std::map<std::string, std::string> at;
    std::vector<Node> ch;
    std::string a(std::string const &k) const
    {
        auto i = at.find(k);
        return i == at.end() ? "" : i->second;
    }
};
// enough XML for description files; false when it is not well formed
static bool parse(std::string const &s, std::size_t &p, Node &n)
{
    for (;;)
    {
        auto b = s.find('<', p);
        if (b == std::string::npos) return n.tag == "";
        n.text += s.substr(p, b - p);
        if (s.compare(b, 4, "<!--") == 0)
        {
            p = s.find("-->", b);
            if (p == std::string::npos) return false;
            p += 3;
            continue;
        }
        auto e = s.find('>', b);
        if (e == std::string::npos) return false;
        p = e + 1;
        if (s[b + 1] == '?' || s[b + 1] == '!') continue;
        if (s[b + 1] == '/') return trim(s.substr(b + 2, e - b - 2)) == n.tag;
        bool closed = s[e - 1] == '/';
        std::string t = s.substr(b + 1, e - b - 1 - closed);
        Node k;
        std::size_t q = t.find_first_of(" \t\r\n");
        k.tag = t.substr(0, q);
        while (q != std::string::npos)
        {
            auto eq = t.find('=', q);
            if (eq == std::string::npos) break;
            auto o = t.find_first_of("\"'", eq);
            if (o == std::string::npos) return false;
            auto cl = t.find(t[o], o + 1);
            if (cl == std::string::npos) return false;
            k.at[trim(t.substr(q, eq - q))] = t.substr(o + 1, cl - o - 1);
            q = cl + 1;
        }
        if (!closed && !parse(s, p, k)) return false;
        n.ch.push_back(k);
    }
}
static void find(Node const &n, std::string const &tag, std::vector<Node const *> &r)
{
    for (auto const &c : n.ch)
    {
        if (c.tag == tag) r.push_back(&c);
        find(c, tag, r);
    }
}
static ivec nums(std::string s, double scale)
{
    dvec v;
    for (auto &ch : s)
        if (ch == ',') ch = ' ';
    std::stringstream ss(s);
    std::string t;
    while (ss >> t)
    {
        char *end;
        v.push_back(strtod(t.c_str(), &end));
        if (*end) v.back() = 1e30;
    }
    return toint(v, scale);
}
static void list(std::string const &dir, std::set<std::string> &r)
{
    if (DIR *d = opendir(dir.c_str()))
    {
        while (dirent *e = readdir(d))
        {
            std::string f = e->d_name;
            struct stat st;
            if (f != "." && f != ".." && stat((dir + "/" + f).c_str(), &st) == 0 && S_ISREG(st.st_mode)) r.insert(dir + "/" + f);
        }
        closedir(d);
    }
}
}
#endif
