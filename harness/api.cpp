/**
 * Drives the classes of the program through their public interface and reports what they say.
 * Requests on fd 0: u32 length, then fields (each u32 length, bytes); reply on fd 1: u32 length, text.
 **/
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <locale.h>
#include <unistd.h>
#include "jsonContainer.hh"
#include "jsonArray.hh"
#include "jsonObject.hh"
#include "jsonObjectEntry.hh"
#include "jsonPrimitive.hh"
#include "streamConsumer.hh"
#include "levenshteinMatrice.hpp"
#include "levenshtein.hpp"
#ifndef NO_HISTORY
#include "wrappedBuffer.hpp"
#include "linearHistory.hh"
#endif
#ifndef NO_SEARCH
#include "searchPattern.hh"
#endif
#include "params.hh"

// ---- allocation balance
static long long liveBlocks, liveBytes, totalBlocks;
static void *alloc(size_t n)
{
    char *p = (char *) malloc(n + 16);
    if (!p) throw std::bad_alloc();
    *(size_t *) p = n;
    liveBlocks++; totalBlocks++; liveBytes += n;
    return p + 16;
}
static void release(void *q)
{
    if (!q) return;
    char *p = (char *) q - 16;
    liveBlocks--; liveBytes -= *(size_t *) p;
    free(p);
}
void *operator new(size_t n) { return alloc(n); }
void *operator new[](size_t n) { return alloc(n); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }

static void rd(void *p, size_t n)
{
    char *c = (char *) p;
    while (n) { ssize_t r = read(0, c, n); if (r <= 0) _exit(0); c += r; n -= r; }
}
static int outfd;
static void reply(const std::string &s)
{
    uint32_t n = s.size();
    std::string m((char *) &n, 4);
    m += s;
    const char *c = m.data(); n = m.size();
    while (n) { ssize_t r = write(outfd, c, n); if (r <= 0) _exit(0); c += r; n -= r; }
}
static std::string hex(const std::string &s)
{
    static const char *d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r.empty() ? "-" : r;
}

struct Doc
{
    std::unique_ptr<Params> params;
    std::istringstream in;
    std::unique_ptr<StreamConsumer> sc;
    Doc(const std::string &flags, const std::string &text): in(text)
    {
        std::vector<std::string> args = { "api" };
        std::istringstream fs(flags);
        for (std::string f; fs >> f;) if (f != "none") args.push_back(f);
        std::vector<char *> av;
        for (std::string &s : args) av.push_back(&s[0]);
        av.push_back(nullptr);
        params.reset(new Params(av.data()));
        params->read();
        sc.reset(new StreamConsumer(in));
        if (flags != "none") sc->withConfig(params.get());
        sc->read();
    }
    JSonElement *root() { return sc->getRoot(); }
};

typedef std::vector<const JSonElement *> Nodes;
static const char *kind(const JSonElement *e)
{
    if (dynamic_cast<const JSonObject *>(e)) return "o";
    if (dynamic_cast<const JSonArray *>(e)) return "a";
    if (dynamic_cast<const JSonObjectEntry *>(e)) return "e";
    if (dynamic_cast<const JSonPrimitive<std::string> *>(e)) return "s";
    if (dynamic_cast<const JSonPrimitive<int> *>(e)) return "i";
    if (dynamic_cast<const JSonPrimitive<long long> *>(e)) return "i";
    if (dynamic_cast<const JSonPrimitive<double> *>(e)) return "d";
    if (dynamic_cast<const JSonPrimitive<bool> *>(e)) return "b";
    if (dynamic_cast<const JSonPrimitive<Null> *>(e)) return "n";
    return "?";
}
/** preorder: root, elements, entries, values of entries **/
static void walk(const JSonElement *root, Nodes &out)
{
    std::vector<const JSonElement *> todo(1, root);
    while (!todo.empty()) {
        const JSonElement *e = todo.back();
        todo.pop_back();
        out.push_back(e);
        if (const JSonContainer *c = dynamic_cast<const JSonContainer *>(e)) {
            std::vector<const JSonElement *> ch(c->begin(), c->end());
            todo.insert(todo.end(), ch.rbegin(), ch.rend());
        }
        else if (const JSonObjectEntry *n = dynamic_cast<const JSonObjectEntry *>(e))
            todo.push_back(**n);
    }
}
static std::map<const JSonElement *, int> number(const Nodes &n, int from = 0)
{
    std::map<const JSonElement *, int> r;
    for (const JSonElement *e : n) { r[e] = from; from++; }
    return r;
}
static int at(const std::map<const JSonElement *, int> &m, const JSonElement *e)
{
    if (!e) return -1;
    auto i = m.find(e);
    return i == m.end() ? -2 : i->second;
}

#ifndef NO_TREE
/** one line per node: index kind parent level prev next first size text **/
static std::string tree(std::vector<std::string> &f)
{
    Doc d(f[1], f[2]);
    std::ostringstream o;
    if (!d.root()) return "noroot";
    Nodes n; walk(d.root(), n);
    auto idx = number(n);
    for (const JSonElement *e : n) {
        const JSonContainer *c = dynamic_cast<const JSonContainer *>(e);
        const AJSonPrimitive *p = dynamic_cast<const AJSonPrimitive *>(e);
        o << idx[e] << ' ' << kind(e) << ' ' << at(idx, e->getParent()) << ' ' << e->getLevel() << ' '
          << at(idx, e->findPrev()) << ' ' << at(idx, e->findNext()) << ' ' << (c ? at(idx, c->firstChild()) : -3) << ' ' << (c ? (long) c->size() : -1) << ' '
          << hex(e->stringify()) << ' ' << (p ? hex(p->getTypeStr()) : "-");
        if (const JSonPrimitive<std::string> *v = dynamic_cast<const JSonPrimitive<std::string> *>(e)) o << ' ' << hex(v->getValue());
        else if (const JSonPrimitive<bool> *v = dynamic_cast<const JSonPrimitive<bool> *>(e)) o << ' ' << v->getValue();
        else if (const JSonPrimitive<int> *v = dynamic_cast<const JSonPrimitive<int> *>(e)) o << ' ' << v->getValue();
        else if (const JSonPrimitive<long long> *v = dynamic_cast<const JSonPrimitive<long long> *>(e)) o << ' ' << v->getValue();
        else if (const JSonPrimitive<double> *v = dynamic_cast<const JSonPrimitive<double> *>(e)) { char b[64]; snprintf(b, sizeof b, "%a", v->getValue()); o << ' ' << b; }
        else o << " -";
        o << '\n';
    }
    // lookups: every object, every key asked for
    for (const JSonElement *e : n)
        if (const JSonObject *ob = dynamic_cast<const JSonObject *>(e))
            for (size_t k = 3; k < f.size(); ++k) {
                JSonObject::const_iterator it = ob->find(f[k]);
                o << "K " << idx[e] << ' ' << k - 3 << ' ' << ob->contains(f[k]) << ' ' << (it == ob->cend() ? -1 : at(idx, *it)) << ' ' << at(idx, ob->get(f[k])) << '\n';
            }
    return o.str();
}

/** erase keys of the object at an index, then list what is left **/
static std::string erase(std::vector<std::string> &f)
{
    Doc d(f[1], f[2]);
    Nodes n; walk(d.root(), n);
    const size_t target = atoi(f[3].c_str());
    JSonObject *ob = target < n.size() ? const_cast<JSonObject *>(dynamic_cast<const JSonObject *>(n[target])) : nullptr;
    if (!ob) return "notobject";
    std::ostringstream o;
    for (size_t k = 4; k < f.size(); ++k) {
        o << "E " << ob->erase(f[k]) << ' ' << ob->size();
        for (JSonElement *e : *ob) o << ' ' << hex(e->stringify());
        o << '\n';
    }
    Nodes m; walk(d.root(), m);
    auto idx = number(m);
    for (const JSonElement *e : m) o << idx[e] << ' ' << kind(e) << ' ' << at(idx, e->getParent()) << ' ' << hex(e->stringify()) << '\n';
    return o.str();
}

#endif

#ifndef NO_LEAK
static std::string leak(std::vector<std::string> &f)
{
    long long b0, n0, t0, b1, n1, t1;
    for (int i = 0; i < 3; ++i) { // what is allocated once and for all is allocated by the first passes
        std::istringstream in(f[2]);
        b0 = liveBytes; n0 = liveBlocks; t0 = totalBlocks;
        {
            StreamConsumer sc(in);
            std::unique_ptr<Params> p;
            std::vector<std::string> args = { "api" };
            std::istringstream fs(f[1]);
            for (std::string x; fs >> x;) args.push_back(x);
            std::vector<char *> av;
            for (std::string &s : args) av.push_back(&s[0]);
            av.push_back(nullptr);
            p.reset(new Params(av.data()));
            p->read();
            sc.withConfig(p.get());
            sc.read();
#ifndef NO_DIFF
            if (i == 2 && f[3] == "diff" && sc.getRoot()) {
                LevenshteinMatrice_base *m = LevenshteinMatrice_base::Builder().build(sc.getRoot(), sc.getRoot());
                delete m;
            }
#endif
        }
        in.str("");
        b1 = liveBytes; n1 = liveBlocks; t1 = totalBlocks;
    }
    std::ostringstream o;
    o << n1 - n0 << ' ' << b1 - b0 << ' ' << t1 - t0;
    return o.str();
}

#endif

#ifndef NO_DIFF
static void dumpNodes(const char *tag, const Nodes &n, const std::map<const JSonElement *, int> &idx, const std::map<const JSonElement *, int> &other, const LevenshteinMatrice_base *m, std::ostream &o)
{
    for (const JSonElement *e : n) {
        char op = '+'; bool known = true; // what has no operation is displayed as added
        try { op = (char) m->get(e); } catch (std::out_of_range &) { known = false; }
        const JSonElement *q = m->getEquivalence(e);
        o << tag << ' ' << at(idx, e) << ' ' << kind(e) << ' ' << at(idx, e->getParent()) << ' ' << op << ' ' << known << ' '
          << (q ? (other.count(q) ? at(other, q) : -2) : -1) << ' ' << hex(e->stringify()) << '\n';
    }
}
static std::string diff(std::vector<std::string> &f)
{
    Doc a(f[1], f[2]), b(f[1], f[3]);
    if (!a.root() || !b.root()) return "noroot";
    Nodes na, nb; walk(a.root(), na); walk(b.root(), nb);
    auto ia = number(na), ib = number(nb);
    std::unique_ptr<LevenshteinMatrice_base> m(LevenshteinMatrice_base::Builder().build(a.root(), b.root()));
    std::ostringstream o;
    dumpNodes("A", na, ia, ib, m.get(), o);
    dumpNodes("B", nb, ib, ia, m.get(), o);
    return o.str();
}

#endif

#ifndef NO_SEARCH
/** keys and scalars matched by each pattern **/
static std::string search(std::vector<std::string> &f)
{
    Doc d(f[1], f[2]);
    std::ostringstream o;
    if (!d.root()) return "noroot";
    Nodes n; walk(d.root(), n);
    for (size_t k = 3; k < f.size(); ++k) {
        SearchPattern p(d.params->isIgnoringUnicode() ? f[k] : StreamConsumer::extractUnicode(f[k]));
        o << (p.isEmpty() ? "E" : "P");
        for (const JSonElement *e : n)
            if (*kind(e) != 'o' && *kind(e) != 'a' && e->match(p)) o << ' ' << kind(e) << ':' << hex(e->stringify());
        o << '\n';
    }
    return o.str();
}
#endif

#ifndef NO_HISTORY
template <int N> static std::string wrapped(const std::string &ops)
{
    WrappedBuffer<char, N> w;
    std::ostringstream o;
    std::istringstream in(ops);
    std::string op;
    while (in >> op) {
        if (op == "p") { int c; in >> c; w.put((char) c); }
        else if (op == "b") {
            int n; in >> n;
            std::vector<char> v(n + 1);
            for (int i = 0; i < n; ++i) { int c; in >> c; v[i] = (char) c; }
            v.resize(n); v.shrink_to_fit();
            w.put(v.data(), (unsigned) n);
        }
        else if (op == "o") w.pop_back();
        else if (op == "r") w.reset();
        o << w.size() << ' ' << w.totalSize() << ' ' << hex(w.toString()) << '\n';
    }
    return o.str();
}
static std::string linear(const std::string &ops)
{
    LinearHistory w;
    std::ostringstream o;
    std::istringstream in(ops);
    std::string op;
    while (in >> op) {
        if (op == "p") { int c; in >> c; w.put((char) c); }
        else if (op == "b") {
            int n; in >> n;
            std::vector<char> v(n + 1);
            for (int i = 0; i < n; ++i) { int c; in >> c; v[i] = (char) c; }
            v.resize(n); v.shrink_to_fit();
            w.put(v.data(), (unsigned) n);
        }
        else if (op == "o") w.pop_back();
        o << w.size() << ' ' << w.totalSize() << ' ' << hex(w.toString()) << ' ' << w.currentLine() << '\n';
    }
    return o.str();
}
static std::string history(std::vector<std::string> &f)
{
    const std::string &n = f[1];
    if (n == "L") return linear(f[2]);
    switch (atoi(n.c_str())) {
        case 1: return wrapped<1>(f[2]);
        case 2: return wrapped<2>(f[2]);
        case 3: return wrapped<3>(f[2]);
        case 4: return wrapped<4>(f[2]);
        case 7: return wrapped<7>(f[2]);
        case 10: return wrapped<10>(f[2]);
        case 45: return wrapped<45>(f[2]);
        case 100: return wrapped<100>(f[2]);
    }
    return "?";
}
#endif

#ifndef NO_DISTANCE
static std::string distance(std::vector<std::string> &f)
{
    std::ostringstream o;
    for (size_t i = 1; i + 1 < f.size(); i += 2) {
        char b[64];
        snprintf(b, sizeof b, "%a", (double) levenshteinPercent(f[i], f[i +1]));
        o << levenshtein(f[i], f[i +1]) << ' ' << b << '\n';
    }
    return o.str();
}

#endif

int main()
{
    setlocale(LC_ALL, "");
    outfd = dup(1);
    dup2(2, 1);
    while (true) {
        uint32_t n;
        rd(&n, 4);
        std::string m(n, '\0');
        if (n) rd(&m[0], n);
        std::vector<std::string> f;
        for (size_t i = 0; i + 4 <= m.size();) {
            uint32_t l; memcpy(&l, &m[i], 4);
            f.push_back(m.substr(i + 4, l));
            i += 4 + l;
        }
        std::string r;
        try {
            r = "unsupported";
#ifndef NO_TREE
            if (f[0] == "tree") r = tree(f);
            if (f[0] == "erase") r = erase(f);
#endif
#ifndef NO_LEAK
            if (f[0] == "leak") r = leak(f);
#endif
#ifndef NO_DIFF
            if (f[0] == "diff") r = diff(f);
#endif
#ifndef NO_SEARCH
            if (f[0] == "search") r = search(f);
#endif
#ifndef NO_HISTORY
            if (f[0] == "history") r = history(f);
#endif
#ifndef NO_DISTANCE
            if (f[0] == "distance") r = distance(f);
#endif
        }
        catch (std::exception &e) { r = std::string("exception ") + e.what(); }
        reply(r);
    }
}
