// C15: input parameters are equal on all ranks and as file and command line say.
#include "common.h"
#include <cmath>

static Geo geo;
static long nchk;

enum Kind { INT, LONG, DBL, FLT, STR, CPLX, CV, VECD, VEC5I, VECSTR, VECI, ITEM, ITEMNUM, BOOL, UNS, VECC, NKIND };
static const char *kind_name[] = {"int", "long", "double", "float", "string", "complex", "CoordinateVector", "vector<double>", "Vector<5,int>", "vector<string>",
                                  "vector<int>", "item", "item or number", "bool", "unsigned", "vector<complex>"};
struct Item {
    int kind;
    std::string key;
    std::vector<double> num;      // value(s)
    std::vector<std::string> str; // value(s)
    std::string text;             // as in the file
    bool override = false;
    std::vector<double> fnum; // in the file when overridden
    std::vector<std::string> fstr;
    std::string ftext;
};

static std::string numtext(Gen &g, double v, bool flt) {
    char b[64];
    if (flt)
        snprintf(b, sizeof b, g.pct(30) ? "%.17e" : "%.17g", v);
    else
        snprintf(b, sizeof b, g.pct(15) && v >= 0 ? "+%.0f" : "%.0f", v);
    return b;
}
static std::string word(Gen &g) {
    static const char *w[] = {"beta", "kappa", "mass", "steps", "traj", "seed", "size", "x", "n_2", "smear-level", "T0", "alpha.s", "gamma5", "out"};
    return w[g.below(14)];
}
static std::string sep(Gen &g, bool comma) {
    std::string s;
    if (!comma) {
        do
            s += g.pct(80) ? ' ' : '\t';
        while (g.pct(30));
        return s;
    }
    if (g.pct(30))
        s += ' ';
    s += ',';
    int k = g.below(6);
    if (k == 0)
        s += g.pct(30) ? " # more\n" : "\n"; // the list goes on in the next line
    if (k <= 3)
        s += ' ';
    return s;
}
static void values(Gen &g, int kind, bool oneline, std::vector<double> &num, std::vector<std::string> &str, std::string &text) {
    num.clear();
    str.clear();
    text.clear();
    auto dbl = [&](bool f) {
        double v = (g.in(-1000000, 1000000) + 0.5 * g.below(2)) * (g.pct(20) ? 1e-9 : g.pct(20) ? 1e7 : 1e-2);
        return f ? (double)(float)v : v;
    };
    auto comma = [&]() {
        std::string s = sep(g, true);
        if (oneline)
            for (size_t i; (i = s.find_first_of("\n#")) != std::string::npos;)
                s = ",";
        return s;
    };
    auto strv = [&](std::string &t) {
        std::string v;
        int n = g.in(1, 12);
        if (g.pct(40)) { // quoted: spaces and commas inside
            for (int i = 0; i < n; i++)
                v += "abcXYZ09 ,_-./="[g.below(15)];
            t += "\"" + v + "\"";
        } else {
            for (int i = 0; i < n; i++)
                v += "abcXYZ09_-./="[g.below(13)];
            t += v;
        }
        str.push_back(v);
    };
    switch (kind) {
    case INT:
        num.push_back(g.pct(10) ? 2147483647 : g.pct(10) ? -2147483647.0 - 1 : g.in(-100000, 100000));
        text = numtext(g, num[0], false);
        break;
    case UNS:
        num.push_back(g.pct(10) ? 4294967295.0 : g.in(0, 100000));
        text = numtext(g, num[0], false);
        break;
    case LONG:
        num.push_back((double)(long)(g.next() >> 12) * (g.pct(50) ? 1 : -1));
        text = numtext(g, num[0], false);
        break;
    case BOOL:
        num.push_back(g.below(2));
        text = num[0] ? "1" : "0";
        break;
    case DBL:
    case FLT:
        num.push_back(dbl(kind == FLT));
        text = numtext(g, num[0], true);
        break;
    case STR:
        strv(text);
        break;
    case CPLX:
        num.push_back(dbl(false));
        num.push_back(dbl(false));
        text = (g.pct(30) ? "( " : "(") + numtext(g, num[0], true) + (g.pct(50) ? ", " : g.pct(50) ? "," : " , ") + numtext(g, num[1], true) + (g.pct(30) ? " )" : ")");
        break;
    case CV:
    case VEC5I:
        for (int i = 0; i < (kind == CV ? NDIM : 5); i++) {
            num.push_back(g.in(-1000, 1000));
            if (i)
                text += comma();
            text += numtext(g, num[i], false);
        }
        break;
    case VECD:
    case VECI: {
        int n = g.pct(10) ? g.in(50, 200) : g.in(1, 9);
        for (int i = 0; i < n; i++) {
            num.push_back(kind == VECI ? g.in(-1000, 1000) : dbl(false));
            if (i)
                text += comma();
            text += numtext(g, num[i], kind == VECD);
        }
        break;
    }
    case VECSTR: {
        int n = g.in(1, 6);
        for (int i = 0; i < n; i++) {
            if (i)
                text += comma();
            strv(text);
        }
        break;
    }
    case VECC: {
        int n = g.in(1, 4);
        for (int i = 0; i < n; i++) {
            if (i)
                text += comma();
            num.push_back(dbl(false));
            num.push_back(dbl(false));
            text += "(" + numtext(g, num[2 * i], true) + (g.pct(50) ? "," : " , ") + numtext(g, num[2 * i + 1], true) + ")";
        }
        break;
    }
    case ITEM: {
        static const char *it[] = {"red", "green", "light blue"};
        num.push_back(g.below(3));
        text = it[(int)num[0]];
        break;
    }
    case ITEMNUM:
        num.push_back(g.below(2));
        if (num[0] == 0)
            text = "tree";
        else {
            num.push_back(dbl(false));
            text = numtext(g, num[1], true);
        }
        break;
    }
}

struct Case {
    std::vector<Item> items;
    std::string file, args, fname;
    int bad = -1;         // item with an error
    int badkind = 0;      // 1 other key, 2 not a value, 3 file ends before it, 4 list too short, 5 unbalanced quotes
    bool missing = false; // no such file
    bool unused = false;  // a -p key nobody reads
    bool use_i = false, use_getvalue = false, quiet = false;
    Case(uint64_t seed) {
        Gen g(seed, 9);
        int n = (int)sim_param("items", -1);
        if (n < 0)
            n = 0;
        build(g, n);
    }
    Case(uint64_t seed, int n) {
        Gen g(seed, 9);
        build(g, n);
    }
    void build(Gen &g, int n) {
        use_getvalue = g.pct(40);
        quiet = g.pct(20);
        use_i = g.pct(30);
        missing = g.pct(4);
        unused = g.pct(5);
        int badsel = g.pct(35) ? g.below(12) : -1;
        badkind = 1 + g.below(5);
        fname = use_i ? "other.in" : "parameters";
        for (int i = 0; i < n; i++) {
            Gen h(g.next(), i); // each item independent of the number of items
            Item it;
            it.kind = h.below(NKIND);
            it.key = word(h) + std::to_string(i);
            while (h.pct(30))
                it.key += " " + word(h);
            values(h, it.kind, false, it.num, it.str, it.text);
            if (h.pct(20) && it.kind != VECSTR && it.kind != STR) {
                it.override = true;
                it.fnum = it.num;
                it.fstr = it.str;
                std::string one;
                // the file keeps its own value on one line
                values(h, it.kind, true, it.fnum, it.fstr, it.ftext);
                values(h, it.kind, true, it.num, it.str, it.text);
                args += std::string(args.size() ? " " : "") + "-p '" + it.key + "' '" + it.text + "'";
            } else
                it.ftext = it.text;
            items.push_back(it);
            if (h.pct(15))
                file += "\n";
            if (h.pct(15))
                file += "  # a comment, beta 7\n";
            std::string key = it.key, key2;
            for (char c : key)
                if (c == ' ')
                    key2 += sep(h, false);
                else
                    key2 += c;
            if (h.pct(15))
                file += "   ";
            std::string txt = it.ftext;
            if (i == badsel && !it.override) {
                bool list = it.kind == CV || it.kind == VEC5I;
                int bk = badkind;
                if (bk == 2 && (it.kind == STR || it.kind == VECSTR))
                    bk = 1;
                if (bk == 4 && !list)
                    bk = 1;
                if (bk == 5 && it.kind != STR)
                    bk = 3;
                badkind = bk;
                bad = i;
                if (bk == 1)
                    key2 = "wrong" + key2;
                else if (bk == 2)
                    txt = it.kind == ITEMNUM ? "treetop" : "q?";
                else if (bk == 4)
                    txt = txt.substr(0, txt.rfind(','));
                else if (bk == 5)
                    txt = "\"abc def";
                if (bk == 3)
                    break;
            }
            file += key2 + sep(h, false) + txt;
            if (h.pct(20))
                file += "   # comment";
            file += "\n";
        }
        if (unused)
            args += std::string(args.size() ? " " : "") + "-p nobodyreadsthis 5";
        if (use_i)
            args += std::string(args.size() ? " " : "") + "-i other.in";
    }
};

static std::string hex(double v) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
static void check_nums(const Item &it, const std::vector<double> &got) {
    bool ok = got.size() == it.num.size();
    for (size_t i = 0; ok && i < got.size(); i++)
        ok = got[i] == it.num[i];
    if (!ok) {
        std::string a, b;
        for (double v : got)
            a += " " + hex(v);
        for (double v : it.num)
            b += " " + hex(v);
        sim_violation("input-value", "'%s' (%s): read%s, given%s", it.key.c_str(), kind_name[it.kind], a.c_str(), b.c_str());
    }
    nchk++;
}
static void check_strs(const Item &it, const std::vector<std::string> &got) {
    if (got != it.str) {
        std::string a, b;
        for (auto &v : got)
            a += " '" + v + "'";
        for (auto &v : it.str)
            b += " '" + v + "'";
        sim_violation("input-value", "'%s' (%s): read%s, given%s", it.key.c_str(), kind_name[it.kind], a.c_str(), b.c_str());
    }
    nchk++;
}
template <typename T>
static bool get1(hila::input &p, const Item &it, bool gv, T &v) {
    if (gv)
        return p.get_value(v, it.key);
    T w = p.get(it.key);
    v = w;
    return true;
}
// read one item; false: get_value reported an error
static bool read_item(hila::input &p, const Item &it, bool gv) {
    switch (it.kind) {
#define SCALAR(K, T)                                                                                                                                           \
    case K: {                                                                                                                                                  \
        T v;                                                                                                                                                   \
        if (!get1(p, it, gv, v))                                                                                                                               \
            return false;                                                                                                                                      \
        check_nums(it, {(double)v});                                                                                                                           \
        return true;                                                                                                                                           \
    }
        SCALAR(INT, int)
        SCALAR(LONG, long)
        SCALAR(DBL, double)
        SCALAR(FLT, float)
        SCALAR(BOOL, bool)
        SCALAR(UNS, unsigned)
    case STR: {
        std::string s;
        if (!get1(p, it, gv, s))
            return false;
        check_strs(it, {s});
        return true;
    }
    case CPLX: {
        Complex<double> c;
        if (!get1(p, it, gv, c))
            return false;
        check_nums(it, {c.re, c.im});
        return true;
    }
    case CV: {
        CoordinateVector v;
        if (gv) {
            if (!p.get_value(v, it.key))
                return false;
        } else {
            CoordinateVector w = p.get(it.key);
            v = w;
        }
        std::vector<double> d;
        foralldir(dd) d.push_back(v[dd]);
        check_nums(it, d);
        return true;
    }
    case VEC5I: {
        Vector<5, int> v;
        if (gv) {
            if (!p.get_value(v, it.key))
                return false;
        } else {
            Vector<5, int> w = p.get(it.key);
            v = w;
        }
        std::vector<double> d;
        for (int i = 0; i < 5; i++)
            d.push_back(v[i]);
        check_nums(it, d);
        return true;
    }
    case VECD: {
        std::vector<double> v;
        if (gv) {
            if (!p.get_value(v, it.key))
                return false;
        } else {
            std::vector<double> w = p.get(it.key);
            v = w;
        }
        check_nums(it, v);
        return true;
    }
    case VECC: {
        std::vector<Complex<double>> v;
        if (gv) {
            if (!p.get_value(v, it.key))
                return false;
        } else {
            std::vector<Complex<double>> w = p.get(it.key);
            v = w;
        }
        std::vector<double> d;
        for (auto &c : v) {
            d.push_back(c.re);
            d.push_back(c.im);
        }
        check_nums(it, d);
        return true;
    }
    case VECI: {
        std::vector<int> v;
        if (gv) {
            if (!p.get_value(v, it.key))
                return false;
        } else {
            std::vector<int> w = p.get(it.key);
            v = w;
        }
        check_nums(it, std::vector<double>(v.begin(), v.end()));
        return true;
    }
    case VECSTR: {
        std::vector<std::string> v;
        if (gv) {
            if (!p.get_value(v, it.key))
                return false;
        } else {
            std::vector<std::string> w = p.get(it.key);
            v = w;
        }
        check_strs(it, v);
        return true;
    }
    case ITEM:
    case ITEMNUM: {
        std::vector<double> d;
        int i = it.kind == ITEM ? p.get_item(it.key, {"red", "green", "light blue"}) : p.get_item(it.key, {"tree", "%f"});
        d.push_back(i);
        if (it.kind == ITEMNUM && i == 1) {
            double v = p.get();
            d.push_back(v);
        }
        check_nums(it, d);
        return true;
    }
    }
    return true;
}

static void mark(const char *what, long v) {
    char k[40];
    snprintf(k, sizeof k, "%s.%d", what, sim_rank());
    sim_put(k, &v, sizeof v);
}
static long marked(const char *what, int rank) {
    char k[40];
    snprintf(k, sizeof k, "%s.%d", what, rank);
    long v = -1;
    return sim_get(k, &v, sizeof v) == (long)sizeof v ? v : -1;
}

extern "C" int harness_main(int argc, char **argv) {
    Case c(sim_seed());
    if (sim_rank() == 0) {
        sim_faults(0);
        if (!c.missing) {
            FILE *f = fopen(c.fname.c_str(), "w");
            fwrite(c.file.data(), 1, c.file.size(), f);
            fclose(f);
        }
        FILE *f = fopen("second", "w");
        fputs("alpha 17\nname   \"second file\"\nrest 5 6\n", f);
        fclose(f);
        sim_faults(1);
    }
    hila::initialize(argc, argv);
    mark("read", 0);
    {
        hila::input p;
        p.quiet(c.quiet);
        bool opened = true;
        if (c.use_getvalue) {
            opened = p.open("parameters", true, false);
            char o = opened;
            sim_agree("open", &o, 1);
        } else
            p.open("parameters");
        if (c.missing && opened)
            sim_violation("missing-file", "opening a file which does not exist succeeds");
        bool fault = sim_param("io_fail_at", -1) >= 0;
        if (!opened && !c.missing && !fault)
            sim_violation("open-failed", "the parameter file cannot be opened");
        bool ok = opened;
        for (size_t i = 0; ok && i < c.items.size(); i++) {
            const Item &it = c.items[i];
            bool isitem = it.kind == ITEM || it.kind == ITEMNUM;
            if ((int)i == c.bad && !(c.use_getvalue && !isitem)) {
                // must not come back
                mark("atbad", 1);
            }
            bool r;
            if ((int)i == c.bad && c.use_getvalue && !isitem) {
                if (c.badkind == 5)
                    mark("atbad", 1); // unbalanced quotes end the program
                // only the answer counts, not the value
                Item any = it;
                switch (it.kind) {
                case INT: { int v; r = p.get_value(v, it.key); break; }
                case LONG: { long v; r = p.get_value(v, it.key); break; }
                case DBL: { double v; r = p.get_value(v, it.key); break; }
                case FLT: { float v; r = p.get_value(v, it.key); break; }
                case BOOL: { bool v; r = p.get_value(v, it.key); break; }
                case UNS: { unsigned v; r = p.get_value(v, it.key); break; }
                case STR: { std::string v; r = p.get_value(v, it.key); break; }
                case CPLX: { Complex<double> v; r = p.get_value(v, it.key); break; }
                case CV: { CoordinateVector v; r = p.get_value(v, it.key); break; }
                case VEC5I: { Vector<5, int> v; r = p.get_value(v, it.key); break; }
                case VECD: { std::vector<double> v; r = p.get_value(v, it.key); break; }
                case VECC: { std::vector<Complex<double>> v; r = p.get_value(v, it.key); break; }
                case VECI: { std::vector<int> v; r = p.get_value(v, it.key); break; }
                default: { std::vector<std::string> v; r = p.get_value(v, it.key); break; }
                }
                if (r)
                    sim_violation("bad-value-accepted", "'%s' (%s) is not in the file as it should be (kind of error %d), but reading it succeeds", it.key.c_str(), kind_name[it.kind], c.badkind);
            } else {
                r = read_item(p, it, c.use_getvalue);
                if ((int)i == c.bad)
                    sim_violation("bad-value-accepted", "'%s' (%s) is not in the file as it should be (kind of error %d), but reading it comes back", it.key.c_str(), kind_name[it.kind], c.badkind);
            }
            char key[24], b = r;
            snprintf(key, sizeof key, "it%zu", i);
            sim_agree(key, &b, 1);
            if (!r && (int)i != c.bad && !fault)
                sim_violation("good-value-refused", "'%s' (%s) given as '%s' is refused", it.key.c_str(), kind_name[it.kind], it.text.c_str());
            if (!r)
                ok = false;
            mark("read", i + 1);
            // the output says what was read only as far as it could be written
            if (sim_rank() == 0 && !hila::out.good())
                sim_violation("output-lost", "after reading '%s' the output stream has failed", it.key.c_str());
        }
        if (ok && c.unused && !c.items.empty())
            mark("atbad", 1);
        if (!ok && c.args.find("-p ") != std::string::npos)
            mark("atbad", 1); // overrides which were not read end the program
        p.close();
        if (ok && c.unused && !c.items.empty())
            sim_violation("unused-accepted", "a -p argument nobody reads is accepted");
        if (!fault) {
            // the same variable opened again, and another one
            p.open("second");
            int a = p.get("alpha");
            std::string s = p.get("name");
            if (a != 17 || s != "second file")
                sim_violation("input-value", "second file: alpha %d, name '%s'", a, s.c_str());
            nchk += 2;
            int q = p.get("rest");
            p.close();
            if (q != 5)
                sim_violation("input-value", "second file: rest %d", q);
            p.open("second");
            a = p.get("alpha");
            if (a != 17)
                sim_violation("input-value", "second file opened again: alpha %d", a);
            p.close();
        }
    }
    mark("done", 1);
    sim_count("checked.entries", nchk);
    end_hila();
    return 0;
}

extern "C" void harness_post(int epoch) {
    Case c(sim_seed());
    int nr = sim_nranks();
    bool fault = sim_param("io_fail_at", -1) >= 0;
    int done = 0;
    for (int r = 0; r < nr; r++)
        done += marked("done", r) == 1;
    if (done && done < nr)
        sim_violation("outcome-differs", "%d of %d ranks went on to the end", done, nr);
    if (done == nr) {
        if (sim_outcome() != 0)
            sim_violation("abnormal-end", "the run ended abnormally (outcome %d, code %d)", sim_outcome(), sim_exit_code(0));
        return;
    }
    // the library ended the job: only for a reason
    long low = 1 << 30, high = -1;
    for (int r = 0; r < nr; r++) {
        long v = marked("read", r);
        low = std::min(low, v);
        high = std::max(high, v);
    }
    if (sim_outcome() != 1)
        sim_violation("error-status", "the library refused the input, but the job ends with success (outcome %d)", sim_outcome());
    bool reason = fault || c.missing || marked("atbad", 0) == 1;
    if (!reason)
        sim_violation("good-value-refused", "the library ended the run after item %ld of %zu (outcome %d), though nothing is wrong; item '%s' (%s) is given as '%s'; the file is:\n%s", low, c.items.size(), sim_outcome(),
                      low < (long)c.items.size() ? c.items[low].key.c_str() : "-", low < (long)c.items.size() ? kind_name[c.items[low].kind] : "-",
                      low < (long)c.items.size() ? c.items[low].text.c_str() : "-", c.file.c_str());
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 5, 8};
    int nr = nrs[g.below(7)];
    o.line("nranks=%d", nr);
    int ni = g.in(1, tier ? 25 : 12);
    o.line("items=%d", ni);
    Case c(seed, ni);
    if (c.args.size())
        o.line("args=%s", c.args.c_str());
    if (g.pct(15)) {
        o.line("io_fail_at=%d", g.in(1, 6));
        o.line("io_kind=%s", g.pct(50) ? "reio" : g.pct(50) ? "open" : g.pct(50) ? "rshort" : "eintr");
        o.line("io_match=%s", c.fname.c_str());
    }
}
