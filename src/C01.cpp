// C01: the collision-result cache against a reference model of a growing LRU pool
#include <trajopt_common/cache.h>

#include <algorithm>
#include <deque>
#include <map>
#include <set>

#include "pbt.h"

PBT_PROPERTY("C01",
             "A case is a history of up to 120 cache operations (lookup, lookup-or-acquire with or without storing, store of "
             "any pooled object under any key, erase) on a pool of initial capacity 0..6 with 2..10 keys and a hash that may "
             "collide; every answer, size and capacity is compared with a reference model. Non-trivial: the history had at "
             "least one eviction or growth, and at least one hit after it.");

namespace
{
struct Value
{
  long marker{ -1 };
};
struct CollidingHash
{
  std::size_t operator()(const int& k) const { return static_cast<std::size_t>(k % 2); }
};

template <class CacheT>
void history(pbt::Gen& g)
{
  const int cap0 = g.count(0, 6, 40);
  const int n_keys = g.count(2, 10, 80);
  const int n_ops = g.count(1, 120, 600);
  CacheT cache(static_cast<std::size_t>(cap0));
  std::size_t cap = static_cast<std::size_t>(std::max(cap0, 1));
  g.log() << "capacity " << cap0 << ":";

  // model
  std::map<int, Value*> mapped;        // key -> object
  std::deque<int> recency;             // most recent first
  std::set<Value*> out;                // handed out on a miss, not stored since
  std::map<Value*, std::shared_ptr<Value>> seen;
  std::map<Value*, long> marker;       // content last written to the object
  long next_marker = 0;
  bool evicted = false, hit_after = false;

  auto touch = [&](int k) {
    recency.erase(std::remove(recency.begin(), recency.end(), k), recency.end());
    recency.push_front(k);
  };
  auto unmap = [&](int k) {
    mapped.erase(k);
    recency.erase(std::remove(recency.begin(), recency.end(), k), recency.end());
  };
  auto keyOf = [&](Value* v) {
    for (auto& kv : mapped)
      if (kv.second == v)
        return kv.first;
    return -1;
  };
  auto store = [&](int k, const std::shared_ptr<Value>& p) {
    p->marker = ++next_marker;
    marker[p.get()] = p->marker;
    const int old_key = keyOf(p.get());
    if (mapped.count(k) && mapped[k] != p.get())
      unmap(k);
    if (old_key >= 0 && old_key != k)
      unmap(old_key);
    CHECK(cache.put(k, p), << "storing a pooled object was refused");
    out.erase(p.get());
    mapped[k] = p.get();
    touch(k);
  };
  auto checkHit = [&](int k, const std::shared_ptr<Value>& p) {
    CHECK(p != nullptr, << "key " << k << " is stored but was not found");
    CHECK(p.get() == mapped[k], << "key " << k << " returned another object than the one stored");
    CHECK(p->marker == marker[p.get()], << "key " << k << " returned changed content");
    touch(k);
    if (evicted)
      hit_after = true;
  };

  for (int i = 0; i < n_ops; ++i)
  {
    const int op = g.range(0, 9);
    const int k = g.range(0, n_keys - 1);
    if (op <= 1)
    {
      g.log() << " get(" << k << ")";
      auto p = cache.get(k);
      if (mapped.count(k))
        checkHit(k, p);
      else
        CHECK(p == nullptr, << "key " << k << " is not stored but was found");
    }
    else if (op <= 6)
    {
      const bool keep = op <= 5;
      g.log() << (keep ? " acquire+put(" : " acquire(") << k << ")";
      auto r = cache.getOrAcquire(k);
      if (mapped.count(k))
      {
        CHECK(r.second, << "key " << k << " is stored but was reported missing");
        checkHit(k, r.first);
      }
      else
      {
        CHECK(!r.second, << "key " << k << " is not stored but was reported found");
        Value* v = r.first.get();
        CHECK(v != nullptr, << "no object was handed out");
        CHECK(out.count(v) == 0, << "an object that is handed out was handed out again");
        const std::size_t used = mapped.size() + out.size();
        if (used < cap)
        {
          CHECK(keyOf(v) < 0, << "a stored entry was evicted although free objects remain");
        }
        else if (!mapped.empty())
        {
          const int lru = recency.back();
          CHECK(keyOf(v) == lru, << "evicted key " << keyOf(v) << " instead of the least recently used " << lru);
          unmap(lru);
          evicted = true;
        }
        else
        {
          CHECK(seen.count(v) == 0, << "the pool was full and all handed out, yet a known object was returned");
          cap *= 2;
          evicted = true;
          g.label("grew");
        }
        seen[v] = r.first;
        out.insert(v);
        if (keep)
          store(k, r.first);
      }
    }
    else if (op == 7)
    {
      g.log() << " erase(" << k << ")";
      cache.erase(k);
      if (mapped.count(k))
        unmap(k);
    }
    else if (op == 8 && !seen.empty())
    {
      auto it = seen.begin();
      // by content, not by address: addresses differ from run to run
      std::vector<std::pair<long, Value*>> order;
      for (auto& s : seen)
        order.emplace_back(s.second->marker, s.first);
      std::sort(order.begin(), order.end(), [](auto& a, auto& b) { return a.first < b.first; });
      const std::size_t j = g.index(order.size());
      if (order[j].first >= 0)
      {
        it = seen.find(order[j].second);
        g.log() << " put(" << k << ", object with content " << order[j].first << ")";
        store(k, it->second);
      }
    }
    else
    {
      g.log() << " put(" << k << ", null)";
      CHECK(!cache.put(k, nullptr), << "storing nothing was reported as success");
    }
    CHECK(cache.size() == mapped.size(), << "size " << cache.size() << ", expected " << mapped.size());
    CHECK(cache.capacity() == cap, << "capacity " << cache.capacity() << ", expected " << cap);
  }
  // whatever the history: every stored key is found, nothing else is
  for (int k = 0; k < n_keys; ++k)
  {
    auto p = cache.get(k);
    CHECK((p != nullptr) == (mapped.count(k) != 0), << "at the end, key " << k);
    if (p)
      CHECK(p.get() == mapped[k] && p->marker == marker[p.get()], << "at the end, key " << k);
  }
  if (evicted)
    g.label("evicted or grew");
  if (hit_after)
    g.nontrivial();
}
}  // namespace

PBT_CASES(history_std_hash, 150000, 2500000) { history<trajopt_common::Cache<int, Value>>(g); }
PBT_CASES(history_colliding_hash, 150000, 2500000) { history<trajopt_common::Cache<int, Value, CollidingHash>>(g); }
