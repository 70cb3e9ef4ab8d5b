// Positive controls for the rule that asking changes nothing; Good classes must not be reported.
#include <cstring>
#include <map>
#include <string>
#include <vector>
namespace wit {
    struct Part { Part(); virtual ~Part(); virtual void bump(); virtual int get() const; int n; };
    struct BadQuery {
        int *cnt; std::vector<int> *v; Part *part; char *buf; std::map<int, int> *m; unsigned first;
        BadQuery();
        int size() const; double mean() const; int total() const; const char *front() const; int lookup(int k); int describe(const BadQuery &o) const;
    };
    int BadQuery::size() const { return ++*cnt; }
    double BadQuery::mean() const { v->push_back(0); return v->size(); }
    int BadQuery::total() const { part->bump(); return part->get(); }
    const char *BadQuery::front() const { memmove(buf, buf + 1, 7); return buf; }
    int BadQuery::lookup(int k) { for (unsigned i = 0; i < 9; ++i) { if (cnt[i] == k) { first = i; return 1; } } return 0; }
    int BadQuery::describe(const BadQuery &o) const { *o.cnt = 0; return (*m)[3]; }
    void bad_arg(BadQuery &a, const BadQuery &b) { a.first = b.first; b.v->clear(); }
    struct GoodQuery {
        int *cnt; std::vector<int> *v; Part *part; std::map<std::string, int> *m; unsigned first;
        GoodQuery();
        int size() const; double mean() const; int total() const; int lookup(int k); std::string text() const; void set(int k);
    };
    int GoodQuery::size() const { int x = *cnt; return ++x; }
    double GoodQuery::mean() const { std::vector<int> c(*v); c.push_back(3); return c.size() + (*v)[0]; }
    int GoodQuery::total() const { int s = part->get(); for (unsigned i = 0; i < first; ++i) s += (*v)[i]; return s; }
    int GoodQuery::lookup(int k) { for (std::vector<int>::iterator i = v->begin(); i != v->end(); ++i) { if (*i == k) return 1; } return 0; }
    std::string GoodQuery::text() const { std::string s("a"); s += m->begin()->first; return s; }
    void GoodQuery::set(int k) { first = k; }
    void good_arg(GoodQuery &a, const GoodQuery &b) { a.first = b.first; *a.v = *b.v; }
}
