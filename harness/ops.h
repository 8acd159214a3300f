// operations of programs.h, in parts that compile separately
#if SIM_PART(1)
OP(reduce_scan) { auto s = data(n, k, 1000); auto r = ref(n, k, 1000); long t = std::accumulate(r.begin(), r.end(), 0L); EQ(parlay::reduce(s), t, "reduce"); auto [p, tot] = parlay::scan(s); EQ(tot, t, "scan total"); long c = 0; for (size_t i = 0; i < n; i++) { EQ(p[i], c, "scan"); c += r[i]; } auto q = parlay::scan_inclusive(s); c = 0; for (size_t i = 0; i < n; i++) { c += r[i]; EQ(q[i], c, "scan_inclusive"); } EQ(parlay::scan_inplace(s), t, "scan_inplace"); eq(s, p, "scan_inplace"); EQ(parlay::scan_inclusive_inplace(q), std::accumulate(q.begin(), q.end(), 0L) * 0 + (n ? q.size() ? q[n - 1] : 0 : 0), "scan_inclusive_inplace"); }
OP(reduce_monoids) { auto s = data(n, k, 100000); auto r = ref(n, k, 100000); EQ(parlay::reduce(s, parlay::maxm<long>()), n ? *std::max_element(r.begin(), r.end()) : std::numeric_limits<long>::lowest(), "reduce(max)"); EQ(parlay::reduce(s, parlay::minm<long>()), n ? *std::min_element(r.begin(), r.end()) : std::numeric_limits<long>::max(), "reduce(min)"); uint64_t x = 0; for (long v : r) x ^= (uint64_t)v; EQ(parlay::reduce(parlay::map(s, [](long v) { return (uint64_t)v; }), parlay::bit_xor<uint64_t>()), x, "reduce(xor)"); auto a = parlay::map(s, [](long v) { return Aff{(uint64_t)v | 1, (uint64_t)v}; }); Aff w; for (long v : r) w = aff_op()(w, Aff{(uint64_t)v | 1, (uint64_t)v}); SIM_CHECK(parlay::reduce(a, parlay::binary_op(aff_op(), Aff())) == w, "result", "reduce of a non-commutative operation"); }
OP(filter_pack) { auto s = data(n, k, 1000); auto r = ref(n, k, 1000); auto f = [](long x) { return x % 3 == 0; }; std::vector<long> w, wi; for (size_t i = 0; i < n; i++) if (f(r[i])) { w.push_back(r[i]); wi.push_back((long)i); } eq(parlay::filter(s, f), w, "filter"); auto fl = parlay::map(s, f); eq(parlay::pack(s, fl), w, "pack"); eq(parlay::pack_index<long>(fl), wi, "pack_index"); parlay::sequence<long> o(n); size_t g = parlay::filter_into_uninitialized(s, o, f); EQ(g, w.size(), "filter_into_uninitialized"); eq(o.head(g), w, "filter_into_uninitialized"); eq(parlay::remove_if(s, f), [&] { std::vector<long> u; for (long x : r) if (!f(x)) u.push_back(x); return u; }(), "remove_if"); EQ(parlay::count_if(s, f), w.size(), "count_if"); }
OP(map_tabulate) { auto s = data(n, k, 1000); auto r = ref(n, k, 1000); auto m = parlay::map(s, [](long x) { return word((uint64_t)x); }); for (size_t i = 0; i < n; i++) SIM_CHECK(m[i] == word((uint64_t)r[i]), "result", "map to strings, element %zu", i); auto c = m; parlay::for_each(c, [](std::string& x) { x += "!"; }); for (size_t i = 0; i < n; i++) SIM_CHECK(c[i] == m[i] + "!", "result", "for_each over strings"); auto it = parlay::iota<long>((long)n); EQ(it.size(), n, "iota"); auto rv = parlay::reverse(s); std::reverse(r.begin(), r.end()); eq(rv, r, "reverse"); parlay::reverse_inplace(rv); eq(rv, s, "reverse_inplace"); if (n) { size_t t = X(k, 7) % n; auto ro = parlay::rotate(s, t); for (size_t i = 0; i < n; i++) EQ(ro[i], s[(i + t) % n], "rotate"); } }
OP(flatten_append) { std::vector<long> w; auto f = [=](size_t i) { return X(k, i) % 7 == 0 ? (size_t)0 : (size_t)(X(k, i) % 9); }; size_t m = n / 4 + 1; auto ss = parlay::tabulate(m, [&](size_t i) { return parlay::tabulate(f(i), [&](size_t j) { return (long)(i * 10 + j); }); }); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < f(i); j++) w.push_back((long)(i * 10 + j)); eq(parlay::flatten(ss), w, "flatten"); auto a = parlay::append(ss[0], w); EQ(a.size(), w.size() + f(0), "append"); eq(parlay::flatten(std::move(ss)), w, "flatten of an rvalue"); }
OP(tokens_split) { std::string t; for (size_t i = 0; i < n; i++) t += "abc d\n"[X(k, i) % 6]; auto sp = [](char c) { return c == ' ' || c == '\n'; }; auto s = parlay::to_sequence(t); std::vector<std::string> w; std::string c; for (char x : t) if (sp(x)) { if (!c.empty()) w.push_back(c); c.clear(); } else c += x; if (!c.empty()) w.push_back(c); auto g = parlay::tokens(s, sp); EQ(g.size(), w.size(), "tokens"); for (size_t i = 0; i < w.size(); i++) eq(g[i], w[i], "tokens"); auto l = parlay::map_tokens(s, [](auto x) { return (long)x.size(); }, sp); for (size_t i = 0; i < w.size(); i++) EQ(l[i], (long)w[i].size(), "map_tokens"); std::vector<std::string> pw; c.clear(); for (char x : t) { c += x; if (sp(x)) { pw.push_back(c); c.clear(); } } pw.push_back(c); auto p = parlay::split_at(s, parlay::delayed_tabulate(n, [&](size_t i) { return sp(s[i]); })); EQ(p.size(), pw.size(), "split_at"); for (size_t i = 0; i < pw.size(); i++) eq(p[i], pw[i], "split_at"); }
#endif
#if SIM_PART(2)
OP(search) { auto s = data(n, k, n / 2 + 2); auto r = ref(n, k, n / 2 + 2); long v = (long)(X(k, n) % (n / 2 + 3)); size_t w = (size_t)(std::find(r.begin(), r.end(), v) - r.begin()); EQ((size_t)(parlay::find(s, v) - s.begin()), w, "find"); EQ((size_t)(parlay::find_if(s, [&](long x) { return x == v; }) - s.begin()), w, "find_if"); EQ(parlay::any_of(s, [&](long x) { return x == v; }), w != n, "any_of"); EQ(parlay::all_of(s, [&](long x) { return x != v; }), w == n, "all_of"); EQ(parlay::count(s, v), (size_t)std::count(r.begin(), r.end(), v), "count"); EQ((size_t)(parlay::adjacent_find(s) - s.begin()), (size_t)(std::adjacent_find(r.begin(), r.end()) - r.begin()), "adjacent_find"); if (n) { EQ((size_t)(parlay::max_element(s) - s.begin()), (size_t)(std::max_element(r.begin(), r.end()) - r.begin()), "max_element"); EQ((size_t)(parlay::min_element(s) - s.begin()), (size_t)(std::min_element(r.begin(), r.end()) - r.begin()), "min_element"); auto mm = parlay::minmax_element(s); EQ(*mm.first, *std::min_element(r.begin(), r.end()), "minmax_element"); EQ(*mm.second, *std::max_element(r.begin(), r.end()), "minmax_element"); } }
OP(compare) { auto a = data(n, k, 5), b = a; size_t d = n ? X(k, 99) % n : 0; bool change = n && X(k, 98) % 2; if (change) b[d]++; EQ(a == b, !change, "=="); EQ(parlay::equal(a, b), !change, "equal"); EQ(parlay::lexicographical_compare(a, b), change, "lexicographical_compare"); auto mm = parlay::mismatch(a, b); EQ((size_t)(mm.first - a.begin()), change ? d : n, "mismatch"); EQ(a < b, change, "<"); if (n) { auto h = a.subseq(d, std::min(n, d + 3)); EQ((size_t)(parlay::search(a, h) - a.begin()), (size_t)(std::search(a.begin(), a.end(), h.begin(), h.end()) - a.begin()), "search"); } EQ(parlay::is_sorted(a), std::is_sorted(a.begin(), a.end()), "is_sorted"); EQ((size_t)(parlay::is_sorted_until(a) - a.begin()), (size_t)(std::is_sorted_until(a.begin(), a.end()) - a.begin()), "is_sorted_until"); eq(parlay::unique(a), [&] { std::vector<long> u(a.begin(), a.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); return u; }(), "unique"); }
OP(sorting) { auto s = data(n, k, 2 * n + 1); auto r = ref(n, k, 2 * n + 1); std::sort(r.begin(), r.end()); eq(parlay::sort(s), r, "sort"); auto t = s; parlay::sort_inplace(t); eq(t, r, "sort_inplace"); std::reverse(r.begin(), r.end()); eq(parlay::sort(s, std::greater<long>()), r, "sort(greater)"); }
OP(stable_sorting) { using P = std::pair<int, int>; auto s = parlay::tabulate(n, [=](size_t i) { return P((int)(X(k, i) % (n / 5 + 2)), (int)i); }); std::vector<P> r(s.begin(), s.end()); auto lt = [](const P& a, const P& b) { return a.first < b.first; }; std::stable_sort(r.begin(), r.end(), lt); SIM_CHECK(std::equal(r.begin(), r.end(), parlay::stable_sort(s, lt).begin()), "result", "stable_sort"); auto t = s; parlay::stable_sort_inplace(t, lt); SIM_CHECK(std::equal(r.begin(), r.end(), t.begin()), "result", "stable_sort_inplace"); auto key = [](const P& a) { return (unsigned)a.first; }; SIM_CHECK(std::equal(r.begin(), r.end(), parlay::stable_integer_sort(s, key).begin()), "result", "stable_integer_sort"); }
OP(sort_strings) { auto s = parlay::tabulate(n, [=](size_t i) { return word(X(k, i) % 500); }); std::vector<std::string> r(s.begin(), s.end()); std::sort(r.begin(), r.end()); auto g = parlay::sort(s); SIM_CHECK(g.size() == n && std::equal(r.begin(), r.end(), g.begin()), "result", "sort of strings"); parlay::sort_inplace(s); SIM_CHECK(std::equal(r.begin(), r.end(), s.begin()), "result", "sort_inplace of strings"); }
#endif
#if SIM_PART(3)
OP(integer_sorting) { size_t range = X(k, n) % 3 == 0 ? 300 : 70000; auto s = data<unsigned>(n, k, range); auto r = ref<unsigned>(n, k, range); std::sort(r.begin(), r.end()); eq(parlay::integer_sort(s), r, "integer_sort"); auto t = s; parlay::integer_sort_inplace(t); eq(t, r, "integer_sort_inplace"); auto [cs, off] = parlay::counting_sort(parlay::make_slice(s), 300, [&](unsigned x) { return (size_t)(x % 300); }); EQ(off.size(), (size_t)301, "counting_sort"); auto u = ref<unsigned>(n, k, range); std::stable_sort(u.begin(), u.end(), [](unsigned a, unsigned b) { return a % 300 < b % 300; }); eq(cs, u, "counting_sort"); }
OP(merging) { size_t m = n ? X(k, 5) % n : 0; auto a = data(n, k, n + 2), b = data(m, k + 1, n + 2); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); std::vector<long> w; std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(w)); eq(parlay::merge(a, b), w, "merge"); if (n) { size_t i = X(k, 6) % n; auto s = data(n, k, n + 2); EQ(*parlay::kth_smallest(s, i), a[i], "kth_smallest"); auto rk = parlay::rank(s); std::vector<long> o(n); for (size_t q = 0; q < n; q++) o[rk[q]] = s[q]; eq(o, a, "rank"); } }
OP(shuffling) { auto s = parlay::random_permutation<long>((long)n, parlay::random(k)); std::vector<long> v(s.begin(), s.end()); std::sort(v.begin(), v.end()); for (size_t i = 0; i < n; i++) EQ(v[i], (long)i, "random_permutation"); auto t = parlay::random_shuffle(s, parlay::random(k + 1)); std::vector<long> u(t.begin(), t.end()); std::sort(u.begin(), u.end()); eq(u, v, "random_shuffle"); eq(parlay::random_permutation<long>((long)n, parlay::random(k)), s, "random_permutation again"); }
#endif
#if SIM_PART(4)
OP(group_by) { size_t ks = n / 6 + 1; auto s = parlay::tabulate(n, [=](size_t i) { return std::pair<long, long>((long)(X(k, i) % ks), (long)i); }); std::map<long, std::vector<long>> w; for (auto& p : s) w[p.first].push_back(p.second); auto g = parlay::group_by_key(s); EQ(g.size(), w.size(), "group_by_key"); for (auto& x : g) { auto f = w.find(x.first); SIM_CHECK(f != w.end(), "result", "group_by_key: key"); auto got = x.second; eq(got, f->second, "group_by_key"); } auto gi = parlay::group_by_index(s, ks); EQ(gi.size(), ks, "group_by_index"); for (size_t i = 0; i < ks; i++) eq(gi[i], w[(long)i], "group_by_index"); }
OP(reduce_by) { size_t ks = n / 6 + 1; auto s = parlay::tabulate(n, [=](size_t i) { return std::pair<long, long>((long)(X(k, i) % ks), (long)i); }); std::map<long, long> w, h; for (auto& p : s) { w[p.first] += p.second; h[p.first]++; } auto g = parlay::reduce_by_key(s); EQ(g.size(), w.size(), "reduce_by_key"); for (auto& x : g) EQ(x.second, w[x.first], "reduce_by_key"); auto gi = parlay::reduce_by_index(s, ks); for (size_t i = 0; i < ks; i++) EQ(gi[i], w[(long)i], "reduce_by_index"); auto keys = parlay::map(s, [](auto& p) { return p.first; }); auto hk = parlay::histogram_by_key(keys); for (auto& x : hk) EQ((long)x.second, h[x.first], "histogram_by_key"); auto hi = parlay::histogram_by_index(keys, ks); for (size_t i = 0; i < ks; i++) EQ((long)hi[i], h[(long)i], "histogram_by_index"); }
OP(duplicates) { auto s = data(n, k, n / 3 + 2); std::set<long> w(s.begin(), s.end()); auto g = parlay::remove_duplicates(s); std::vector<long> v(g.begin(), g.end()); std::sort(v.begin(), v.end()); eq(v, std::vector<long>(w.begin(), w.end()), "remove_duplicates"); auto o = parlay::remove_duplicates_ordered(s, std::less<long>()); eq(o, std::vector<long>(w.begin(), w.end()), "remove_duplicates_ordered"); auto d = parlay::remove_duplicate_integers(s, (long)(n / 3 + 2)); std::vector<long> di(d.begin(), d.end()); std::sort(di.begin(), di.end()); eq(di, v, "remove_duplicate_integers"); }
#endif
#if SIM_PART(5)
OP(delayed_ops) { namespace d = parlay::delayed; auto s = data(n, k, 1000); auto r = ref(n, k, 1000); auto v = d::map(s, [](long x) { return 3 * x; }); auto f = d::filter(v, [](long x) { return x % 2 == 0; }); std::vector<long> w; for (long x : r) if (3 * x % 2 == 0) w.push_back(3 * x); eq(d::to_sequence(f), w, "delayed filter"); EQ(d::reduce(f), std::accumulate(w.begin(), w.end(), 0L), "delayed reduce"); auto [sc, tot] = d::scan(f); EQ(tot, std::accumulate(w.begin(), w.end(), 0L), "delayed scan"); long c = 0; size_t i = 0; for (long x : d::to_sequence(sc)) { EQ(x, c, "delayed scan"); c += w[i++]; } auto z = d::to_sequence(d::zip_with([](long a, long b) { return a - b; }, s, v)); for (size_t q = 0; q < n; q++) EQ(z[q], -2 * r[q], "delayed zip_with"); std::vector<std::atomic<int>> seen(w.size()); for (auto& a : seen) a = 0; d::for_each(d::enumerate(f), [&](auto&& p) { seen[std::get<0>(p)]++; SIM_CHECK(std::get<1>(p) == w[std::get<0>(p)], "result", "delayed enumerate"); }); for (auto& a : seen) EQ(a.load(), 1, "delayed for_each"); }
OP(delayed_flatten) { namespace d = parlay::delayed; size_t m = n / 3 + 1; auto in = parlay::tabulate(m, [&](size_t i) { return data((size_t)(X(k, i) % 6), k + i, 100); }); std::vector<long> w; for (auto& x : in) w.insert(w.end(), x.begin(), x.end()); auto fl = d::flatten(in); EQ(d::reduce(fl), std::accumulate(w.begin(), w.end(), 0L), "delayed flatten"); eq(d::to_sequence(d::map(fl, [](long x) { return x; })), w, "delayed flatten"); auto nested = d::flatten(d::map(in, [](auto& s) { return d::filter(d::map(s, [](long x) { return x + 1; }), [](long x) { return x % 2; }); })); std::vector<long> u; for (long x : w) if ((x + 1) % 2) u.push_back(x + 1); eq(d::to_sequence(nested), u, "nested delayed flatten"); }
OP(sequences) { auto s = data(n, k, 100); auto r = ref(n, k, 100); auto t = s; t.push_back(5); t.append(s); t.insert(t.begin() + (long)(n / 2), r.begin(), r.end()); std::vector<long> w = r; w.push_back(5); w.insert(w.end(), r.begin(), r.end()); w.insert(w.begin() + (long)(n / 2), r.begin(), r.end()); eq(t, w, "sequence history"); t.erase(t.begin(), t.begin() + (long)(n / 3)); t.resize(2 * n + 3, 8); auto u = std::move(t); w.erase(w.begin(), w.begin() + (long)(n / 3)); w.resize(2 * n + 3, 8); eq(u, w, "sequence history"); eq(u.to_vector(), w, "to_vector"); parlay::short_sequence<char> c(n % 40, 'x'), e = c; c.append(e); EQ(c.size(), 2 * (n % 40), "short_sequence"); parlay::sequence<std::string> z(n / 4, word(k)); auto y = z; for (auto& x : y) SIM_CHECK(x == word(k), "result", "sequence of strings"); SIM_CHECK(y == z, "result", "comparison of sequences of strings"); }
#endif
#if SIM_PART(6)
OP(hash_table) { auto s = data<unsigned>(n, k, n + 5); parlay::hashtable<parlay::hash_numeric<unsigned>> t(n + 5, parlay::hash_numeric<unsigned>()); parlay::parallel_for(0, n, [&](size_t i) { t.insert(s[i]); }); parlay::parallel_for(0, n, [&](size_t i) { EQ(t.find(s[i]), s[i], "hashtable find"); }); std::set<unsigned> w(s.begin(), s.end()); auto del = parlay::filter(s, [](unsigned x) { return x % 2; }); parlay::for_each(del, [&](unsigned x) { t.deleteVal(x); }); std::vector<unsigned> v; for (unsigned x : w) if (x % 2 == 0) v.push_back(x); auto e = t.entries(); std::sort(e.begin(), e.end()); eq(e, v, "hashtable"); EQ(t.count(), v.size(), "hashtable count"); }
OP(allocation) { struct Node { uint64_t v; Node* next; uint64_t pad[3]; }; size_t m = n / 4 + 1; std::vector<Node*> h(m, nullptr); parlay::parallel_for(0, m, [&](size_t i) { for (size_t j = 0; j < X(k, i) % 5; j++) { Node* q = parlay::type_allocator<Node>::alloc(); q->v = i; q->next = h[i]; h[i] = q; } }, 1); parlay::parallel_for(0, m, [&](size_t i) { size_t j = (i + m / 2) % m; size_t c = 0; while (Node* q = h[j]) { EQ(q->v, j, "a block of the type allocator"); h[j] = q->next; parlay::type_allocator<Node>::free(q); c++; } EQ(c, X(k, j) % 5, "blocks of the type allocator"); }, 1); std::vector<unsigned char*> b(m); auto sz = [=](size_t i) { return (size_t)(X(k, i + m) % (i % 16 == 0 ? 300000 : 300)); }; auto mark = [=](size_t i) { return (unsigned char)X(k, i); }; parlay::parallel_for(0, m, [&](size_t i) { b[i] = (unsigned char*)parlay::p_malloc(sz(i)); if (sz(i)) { b[i][0] = mark(i); b[i][sz(i) - 1] = mark(i); } }, 1); parlay::parallel_for(0, m, [&](size_t i) { size_t j = m - 1 - i; if (sz(j)) EQ(b[j][0] == mark(j) && b[j][sz(j) - 1] == mark(j), true, "a block of p_malloc"); parlay::p_free(b[j]); }, 1); }
OP(fork_join) { struct R { static long fib(int x) { if (x < 2) return x; long a, b; parlay::par_do([&] { a = fib(x - 1); }, [&] { b = fib(x - 2); }); return a + b; } }; EQ(R::fib((int)(k % 9)), std::vector<long>({0, 1, 1, 2, 3, 5, 8, 13, 21})[k % 9], "par_do recursion"); size_t m = n / 8 + 1; std::vector<int> hits(m * 4, 0); parlay::parallel_for(0, m, [&](size_t i) { parlay::parallel_for(0, 4, [&](size_t j) { hits[4 * i + j]++; }, 1); }, 1 + k % 3); for (int x : hits) EQ(x, 1, "nested parallel_for"); parlay::blocked_for(0, n, 1 + k % 50, [&](size_t, size_t a, size_t b) { SIM_CHECK(a <= b && b <= n, "result", "blocked_for"); }); }
OP(per_thread) { parlay::ThreadSpecific<long> t([] { return 0L; }); parlay::parallel_for(0, n, [&](size_t i) { *t += (long)i + 1; }, 1 + (long)(k % 4)); long s = 0; t.for_each([&](long& x) { s += x; }); EQ(s, (long)(n * (n + 1) / 2), "ThreadSpecific sum"); parlay::WorkerSpecific<long> w([] { return 0L; }); parlay::parallel_for(0, n, [&](size_t i) { *w += (long)i + 1; }, 1 + (long)(k % 4)); s = 0; w.for_each([&](long& x) { s += x; }); EQ(s, (long)(n * (n + 1) / 2), "WorkerSpecific sum"); }
OP(atomics) { std::atomic<long> mn(1 << 30), mx(-1), sum(0); std::vector<int> slot(n, 0); parlay::parallel_for(0, n, [&](size_t i) { parlay::write_min(&mn, (long)(X(k, i) % 10000), std::less<long>()); parlay::write_max(&mx, (long)(X(k, i) % 10000), std::less<long>()); parlay::write_add(&sum, (long)i); }); if (n) { auto r = ref(n, k, 10000); EQ(mn.load(), *std::min_element(r.begin(), r.end()), "write_min"); EQ(mx.load(), *std::max_element(r.begin(), r.end()), "write_max"); EQ(sum.load(), (long)(n * (n - 1) / 2), "write_add"); } }
OP(stack) { parlay::internal::hazptr_stack<long> s; parlay::parallel_for(0, n / 4 + 1, [&](size_t i) { s.push((long)i + 1); }, 1); std::atomic<long> tot{0}; parlay::parallel_for(0, n / 4 + 1, [&](size_t) { auto x = s.pop(); if (x) tot.fetch_add(*x); }, 1); EQ(tot.load(), (long)((n / 4 + 1) * (n / 4 + 2) / 2), "hazptr_stack"); EQ(s.empty(), true, "hazptr_stack"); }
OP(text) { auto s = data(n / 4, k, 1000); auto c = parlay::flatten(parlay::map(s, [](long x) { auto t = parlay::to_chars(x); t.push_back(' '); return t; })); auto b = parlay::map_tokens(c, [](auto t) { return parlay::chars_to_long(parlay::to_sequence(t)); }); eq(b, s, "numbers written and read back"); }
#endif
