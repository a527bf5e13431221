// HTML parser: the event stream is exactly that of the reference tokenizer
// ONLY: html_parser
// and, put back together, loses nothing of the document.
#include "mc.hpp"
#include "html_parser.hpp"
#include <string.h>
#include <stdio.h>
#include <strings.h>
#include <fcntl.h>
#include <unistd.h>
#include <vector>

namespace mp = metaproxy_1;

// adjacent pieces of text count as one
static void addt(std::string &log, const std::string &t)
{
    if (t.empty())
        return;
    if (log.size() && log[log.size() - 1] == '\1')
        log.erase(log.size() - 1);
    else
        log += "T(";
    log += t + "\1";
}

struct Ev : public mp::HTMLParserEvent {
    std::string log, back;
    const char *lo, *hi;
    void span(const char *p, int n, const char *what)
    {
        if (n < 0 || p < lo || p + n > hi)
            mc::fail("outside-input", "%s reported outside of the document "
                     "(length %d)", what, n);
    }
    void openTagStart(const char *t, int n)
    {
        span(t, n, "tag");
        log += "O(" + std::string(t, n) + ")";
        back += "<" + std::string(t, n);
    }
    void anyTagEnd(const char *t, int n, int c)
    {
        span(t, n, "tag");
        log += std::string(c ? "C(" : "E(") + std::string(t, n) + ")";
        back += c ? "/>" : ">";
    }
    void attribute(const char *t, int tn, const char *a, int an,
                   const char *v, int vn, const char *sep)
    {
        span(t, tn, "tag");
        span(a, an, "attribute");
        log += "A(" + std::string(t, tn) + "," + std::string(a, an);
        back += " " + std::string(a, an);
        if (v)
        {
            span(v, vn, "value");
            log += "=" + std::string(sep) + std::string(v, vn);
            back += "=" + std::string(sep) + std::string(v, vn) + sep;
        }
        log += ")";
    }
    void closeTag(const char *t, int n)
    {
        span(t, n, "tag");
        log += "/(" + std::string(t, n) + ")";
        back += "</" + std::string(t, n);
    }
    void text(const char *t, int n)
    {
        span(t, n, "text");
        addt(log, std::string(t, n));
        back += std::string(t, n);
    }
};

// ------------------------------------------------------ reference tokenizer
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f'; }
static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool namec(char c) { return !sp(c) && c != '/' && c != '>' && c != '<' && c != '='; }

struct Ref {
    std::string s, log;
    size_t i, n;
    char at(size_t k) { return k < n ? s[k] : 0; }
    void text(size_t a, size_t b) { addt(log, s.substr(a, b - a)); }
    void finish(const std::string &tag)     // rest of a tag
    {
        size_t a = i;
        while (i < n && s[i] != '/' && s[i] != '>' && s[i] != '<')
            i++;
        text(a, i);
        if (at(i) == '/' && at(i + 1) == '>')
        {
            log += "C(" + tag + ")";
            i += 2;
        }
        else if (at(i) == '>')
        {
            log += "E(" + tag + ")";
            i++;
        }
    }
    void ws() { while (i < n && sp(s[i])) i++; }
    std::string name() { size_t a = i; while (i < n && namec(s[i])) i++; return s.substr(a, i - a); }
    void run(const std::string &str)
    {
        s = str;
        n = s.size();
        i = 0;
        bool script = false;
        size_t t = 0;
        while (i < n)
        {
            if (s[i] != '<')
            {
                i++;
                continue;
            }
            if (script)
            {
                // only </script ws* > counts
                if (at(i + 1) == '/' && alpha(at(i + 2)))
                {
                    size_t save = i;
                    i += 2;
                    std::string nm = name();
                    size_t j = i;
                    while (j < n && sp(s[j]))
                        j++;
                    if (!strcasecmp(nm.c_str(), "script") && at(j) == '>')
                    {
                        text(t, save);
                        log += "/(" + nm + ")";
                        finish(nm);
                        t = i;
                        script = false;
                        continue;
                    }
                    i = save;
                }
                i++;
                continue;
            }
            char c = at(i + 1);
            if (c == '!' || c == '?')
            {
                text(t, i);
                size_t a = i + 1;
                if (c == '!' && at(i + 2) == '-' && at(i + 3) == '-')
                {
                    size_t e = s.find("-->", i + 4);
                    i = e == std::string::npos ? n : e + 2;
                }
                else
                {
                    i = s.find('>', i + 2);
                    if (i == std::string::npos)
                        i = n;
                }
                std::string tag = s.substr(a, i - a);
                log += "O(" + tag + ")";
                finish(tag);
                t = i;
            }
            else if (c == '/' && alpha(at(i + 2)))
            {
                text(t, i);
                i += 2;
                std::string nm = name();
                log += "/(" + nm + ")";
                finish(nm);
                t = i;
            }
            else if (alpha(c))
            {
                text(t, i);
                i++;
                std::string nm = name();
                log += "O(" + nm + ")";
                ws();
                while (i < n && s[i] != '/' && s[i] != '>' && s[i] != '<' && s[i] != '=')
                {
                    std::string an = name();
                    log += "A(" + nm + "," + an;
                    ws();
                    if (at(i) == '=')
                    {
                        i++;
                        ws();
                        size_t a;
                        if (at(i) == '"' || at(i) == '\'')
                        {
                            char q = s[i++];
                            a = i;
                            while (i < n && s[i] != q)
                                i++;
                            log += std::string("=") + q + s.substr(a, i - a);
                            if (i < n)
                                i++;
                        }
                        else
                        {
                            a = i;
                            while (i < n && !sp(s[i]) && s[i] != '>')
                                i++;
                            log += "=" + s.substr(a, i - a);
                        }
                        ws();
                    }
                    log += ")";
                }
                finish(nm);
                t = i;
                if (!strcasecmp(nm.c_str(), "script"))
                    script = true;
            }
            else
                i++;
        }
        text(t, n);
    }
};

static std::string squeeze(const std::string &s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); i++)
        if (!sp(s[i]))
            r += s[i];
    return r;
}

static void check(const std::string &doc, mp::HTMLParser *used = 0,
                  const char *before = "")
{
    // exact-size heap copy: a read beyond the terminator is caught
    char *b = (char *) malloc(doc.size() + 1);
    memcpy(b, doc.c_str(), doc.size() + 1);
    Ev ev;
    ev.lo = b;
    ev.hi = b + doc.size();
    mp::HTMLParser p;
    (used ? used : &p)->parse(ev, b);
    free(b);
    Ref r;
    r.run(doc);
    mc::evaluated();
    // everything of the document is still there (white space inside tags is
    // not reported; a value left open at the end gets its closing quote)
    std::string a = squeeze(doc), c = squeeze(ev.back);
    if (a != c && a + "\"" != c && a + "'" != c)
        mc::fail("content-lost", "document [%s]%s comes back as [%s]; events %s",
                 doc.c_str(), before, ev.back.c_str(), ev.log.c_str());
    std::string got = ev.log, exp = r.log;
    if (got != exp)
        mc::fail("events", "document [%s]%s gives events %s, expected %s",
                 doc.c_str(), before, got.c_str(), exp.c_str());
    std::string shape;
    for (size_t i = 0; i + 1 < ev.log.size(); i++)
        if (ev.log[i + 1] == '(' && strchr("OECA/T", ev.log[i]))
            shape += ev.log[i];
    if (shape.size() < 9)
        mc::outcome(shape);
}

// every document over the alphabet, up to len characters
MC_SCENARIO(html_chars, 0)
{
    static const char al[] = "<>/!-?=\"' ab\t\r\n\f";
    // white space other than the blank only in the shorter documents
    int len = mc::param("len", 6), l = mc::choose(len + 1);
    int A = l == len ? 12 : sizeof al - 1;
    int pre = 3;
    std::string s;
    int i = 0;
    for (; i < l && i < pre; i++)
        s += al[mc::choose(A)];
    int rest = l - i;
    long total = 1;
    for (int k = 0; k < rest; k++)
        total *= A;
    mc::state("chars:" + s + "*" + std::to_string(rest));
    for (long v = 0; v < total; v++)
    {
        std::string t = s;
        long w = v;
        for (int k = 0; k < rest; k++, w /= A)
            t += al[w % A];
        check(t);
    }
}

static const char *tk[] = { "<", ">", "/>", "</", "a", "<a", "<script",
        "<ScRiPt>", "</script", "</SCRIPT >", "<!--", "-->", "<!", "<?", " b",
        "=", "\"x>\"", "'y'", " c=d", "\n", "/", "t", "</s>", "\t", "-", "script " };

// documents made of markup pieces
MC_SCENARIO(html_tokens, 0)
{
    int A = sizeof tk / sizeof *tk, len = mc::param("len", 5), pre = 2;
    std::string s;
    int l = mc::choose(len + 1), i = 0;
    for (; i < l && i < pre; i++)
        s += tk[mc::choose(A)];
    int rest = l - i;
    long total = 1;
    for (int k = 0; k < rest; k++)
        total *= A;
    mc::state("tok:" + s + "*" + std::to_string(rest));
    for (long v = 0; v < total; v++)
    {
        std::string t = s;
        long w = v;
        for (int k = 0; k < rest; k++, w /= A)
            t += tk[w % A];
        check(t);
    }
}

// one parser, several documents, with and without its trace
MC_SCENARIO(html_reuse, 0)
{
    int A = sizeof tk / sizeof *tk, len = mc::param("len", 2), n = 1;
    int verbose = mc::choose(2);
    std::string s;
    int l = mc::choose(len + 1);
    for (int i = 0; i < l; i++)
        s += tk[mc::choose(A)];
    mc::state((verbose ? "v" : "q") + s);
    int fd = verbose ? dup(1) : -1;
    if (verbose)
    {
        fflush(stdout);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        close(nul);
    }
    std::string before = " after [" + s + "]";
    for (int k = 0; k <= len; k++, n *= A)
        for (int v = 0; v < n; v++)
        {
            std::string t;
            for (int i = 0, w = v; i < k; i++, w /= A)
                t += tk[w % A];
            mp::HTMLParser p;
            p.set_verbose(verbose);
            check(s, &p);
            check(t, &p, before.c_str());
            if (verbose && k == len)
                v += 6;
        }
    if (verbose)
    {
        fflush(stdout);
        dup2(fd, 1);
        close(fd);
    }
}
