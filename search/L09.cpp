// L09: nullable / firstpos / lastpos / followpos of random trees and of their copies against the textbook definitions
#include "common.hpp"
#include <cstdint>
#include <set>
#include <lexertl/parser/tree/leaf_node.hpp>
#include <lexertl/parser/tree/end_node.hpp>
#include <lexertl/parser/tree/selection_node.hpp>
#include <lexertl/parser/tree/sequence_node.hpp>
#include <lexertl/parser/tree/iteration_node.hpp>
using namespace vp; using namespace lexertl; using namespace lexertl::detail;
using IDT = uint16_t; using node = basic_node<IDT>; using leaf = basic_leaf_node<IDT>; using NV = node::node_ptr_vector; using K = node::node_type;
struct T { int kind; int tok; int greedy; int l = -1, r = -1; };     // 0 leaf 1 seq 2 sel 3 iter 4 end
struct R { bool nul; std::set<int> fp, lp; };
static std::vector<T> t; static std::map<int, std::set<int>> fol; static std::map<int, int> grd;
static int mk(int depth) {
    int k = depth <= 0 ? 0 : (int)rnd(8); T x;
    if (k <= 1) { x = {0, chance(20) ? 65535 : (int)rnd(5), (int)rnd(3)}; }
    else if (k <= 4) { int a = mk(depth - 1), b = mk(depth - 1); x = {1, 0, 0, a, b}; }
    else if (k <= 6) { int a = mk(depth - 1), b = mk(depth - 1); x = {2, 0, 0, a, b}; }
    else { int a = mk(depth - 1); x = {3, 0, (int)rnd(3), a, -1}; }
    t.push_back(x); return (int)t.size() - 1;
}
static R ref(int i) {
    const T& x = t[i]; R o;
    if (x.kind == 0) { o.nul = x.tok == 65535; if (!o.nul) { o.fp.insert(i); o.lp.insert(i); } grd[i] = x.greedy; return o; }
    if (x.kind == 4) { o.nul = false; o.fp.insert(i); o.lp.insert(i); return o; }
    R a = ref(x.l), b; if (x.r >= 0) b = ref(x.r);
    if (x.kind == 1) { o.nul = a.nul && b.nul; o.fp = a.fp; if (a.nul) o.fp.insert(b.fp.begin(), b.fp.end()); o.lp = b.lp; if (b.nul) o.lp.insert(a.lp.begin(), a.lp.end()); for (int p : a.lp) fol[p].insert(b.fp.begin(), b.fp.end()); }
    else if (x.kind == 2) { o.nul = a.nul || b.nul; o.fp = a.fp; o.fp.insert(b.fp.begin(), b.fp.end()); o.lp = a.lp; o.lp.insert(b.lp.begin(), b.lp.end()); }
    else { o.nul = true; o.fp = a.fp; o.lp = a.lp; for (int p : a.lp) fol[p].insert(a.fp.begin(), a.fp.end()); for (int p : a.fp) if (grd[p] != 2) grd[p] = x.greedy; }
    return o;
}
static std::string show(int i) { const T& x = t[i]; std::ostringstream o; if (x.kind == 0) o << "L" << x.tok << "g" << x.greedy; else if (x.kind == 4) o << "END"; else if (x.kind == 3) o << "iter" << x.greedy << "(" << show(x.l) << ")"; else o << (x.kind == 1 ? "seq(" : "sel(") << show(x.l) << "," << show(x.r) << ")"; return o.str(); }
static node* build(int i, NV& own, std::vector<node*>& at, std::vector<std::pair<int, node*>>* post) {
    const T& x = t[i]; node* n;
    if (x.kind == 0) own.push_back(std::make_unique<leaf>((IDT)x.tok, (greedy_repeat)x.greedy));
    else if (x.kind == 4) own.push_back(std::make_unique<basic_end_node<IDT>>((IDT)7, (IDT)8, (IDT)9, (IDT)1, (IDT)2, true, greedy_repeat::yes));
    else { node* a = build(x.l, own, at, post); node* b = x.r >= 0 ? build(x.r, own, at, post) : nullptr;
        if (x.kind == 1) own.push_back(std::make_unique<basic_sequence_node<IDT>>(a, b)); else if (x.kind == 2) own.push_back(std::make_unique<basic_selection_node<IDT>>(a, b)); else own.push_back(std::make_unique<basic_iteration_node<IDT>>(a, (greedy_repeat)x.greedy)); }
    n = own.back().get(); at[i] = n; return n;
}
// positions of a (copied) tree in reading order: copies create nodes children first, left before right
static void order(int i, std::vector<int>& o) { if (t[i].l >= 0) order(t[i].l, o); if (t[i].r >= 0) order(t[i].r, o); o.push_back(i); }
static bool cmp(const char* tag, const std::string& ds, const std::vector<node*>& at, int root, const R& r, bool all) {
    std::map<const node*, int> no; for (size_t i = 0; i < at.size(); ++i) if (at[i]) no[at[i]] = (int)i;
    auto same = [&](const char* w, const typename node::node_vector& v, const std::set<int>& s, int i) { std::set<int> g; for (auto p : v) { auto f = no.find(p); g.insert(f == no.end() ? -1 : f->second); } if (g != s) { std::ostringstream o; o << ds << " " << tag << ": " << w << " of node " << i << " " << show(i) << " is {"; for (int x : g) o << x << " "; o << "}, expected {"; for (int x : s) o << x << " "; o << "}"; fail(w, o.str()); return false; } return true; };
    (void)all; std::function<bool(int)> walk = [&](int i) -> bool {
        auto keep = fol; auto kg = grd; R w = ref(i); fol = keep; grd = kg;
        if (at[i]->nullable() != w.nul) { fail("nullable", ds + " " + tag + ": nullable of " + show(i)); return false; }
        if (!same("firstpos", at[i]->firstpos(), w.fp, i) || !same("lastpos", at[i]->lastpos(), w.lp, i)) return false;
        const K kinds[] = {K::LEAF, K::SEQUENCE, K::SELECTION, K::ITERATION, K::END}; if (at[i]->what_type() != kinds[t[i].kind]) { fail("kind", ds + " " + tag + ": node kind of " + show(i)); return false; }
        if (t[i].kind == 0) { if (at[i]->token() != t[i].tok) { fail("token", ds + " " + tag); return false; } if (t[i].tok != 65535 && !same("followpos", at[i]->followpos(), fol[i], i)) return false; if ((int)at[i]->greedy() != grd[i]) { std::ostringstream o; o << ds << " " << tag << ": repeat mark of leaf " << i << " is " << (int)at[i]->greedy() << ", expected " << grd[i]; fail("greedy", o.str()); return false; } }
        if (t[i].kind == 4) { if (!at[i]->followpos().empty() || at[i]->id() != 7 || at[i]->user_id() != 8 || at[i]->unique_id() != 9 || at[i]->next_dfa() != 1 || at[i]->push_dfa() != 2 || !at[i]->pop_dfa() || !at[i]->end_state()) { fail("end", ds); return false; } }
        return (t[i].l < 0 || walk(t[i].l)) && (t[i].r < 0 || walk(t[i].r));
    };
    (void)r; return walk(root);
}
int main(int argc, char** argv) {
    init(argc, argv);
    while (timeleft() && !toomany()) {
        t.clear(); fol.clear(); grd.clear(); int root = mk((int)rint(0, 5)); std::string ds = "tree " + show(root); cur(ds);
        NV own, own2; std::vector<node*> at(t.size()); node* n = build(root, own, at, nullptr); R r = ref(root);
        bool ok = cmp("built", ds, at, root, r, true); eval(ds, t.size() > 3); if (ok && C().samples < 3) sample(ds); if (!ok) continue;
        node* c = n->copy(own2); std::vector<int> ord; order(root, ord); std::vector<node*> at2(t.size());
        // a leaf copied after its mark was changed carries the mark: the copy's reference starts from the final marks
        auto orig = t; for (size_t i = 0; i < t.size(); ++i) if (t[i].kind == 0) t[i].greedy = grd[i];
        if (own2.size() != ord.size()) { std::ostringstream o; o << ds << " copy has " << own2.size() << " nodes, expected " << ord.size(); fail("copy-size", o.str()); continue; }
        for (size_t i = 0; i < ord.size(); ++i) at2[ord[i]] = own2[i].get();
        if (at2[root] != c) { fail("copy-root", ds + " the root returned is not the copied root"); continue; }
        fol.clear(); grd.clear(); R r2 = ref(root); if (!cmp("copy", ds, at2, root, r2, true)) continue;
        // the end marker on top of both; the original is untouched by the copy
        for (int w = 0; w < 2; ++w) { T e = {4, 0, 0}; t.push_back(e); T s = {1, 0, 0, root, (int)t.size() - 1}; t.push_back(s); int top = (int)t.size() - 1; auto& o = w ? own2 : own; auto& a = w ? at2 : at; auto save = t; if (!w) for (size_t i = 0; i < orig.size(); ++i) t[i] = orig[i];
            a.resize(t.size()); o.push_back(std::make_unique<basic_end_node<IDT>>((IDT)7, (IDT)8, (IDT)9, (IDT)1, (IDT)2, true, greedy_repeat::yes)); a[top - 1] = o.back().get(); o.push_back(std::make_unique<basic_sequence_node<IDT>>(a[root], a[top - 1])); a[top] = o.back().get();
            fol.clear(); grd.clear(); R q = ref(top); if (!cmp(w ? "copy with end" : "with end", ds, a, top, q, true)) break; t = save; t.pop_back(); t.pop_back(); }
    }
    return finish();
}
