prop C14  # ordered, case-insensitive multi-map
extern github.com/indigo-web/utils/strcomp.EqualFold(a, b) (r)
  ensures r == asciifold(a, b)
sort Pairs = internal/keyvalue.Pair
sort Strs = string
def onepair(k: String, v: String): Pairs = unit(mk("internal/keyvalue.Pair", k, v))
def pkey(p: Pairs, i: Int): String = as(at(p, i), "internal/keyvalue.Pair").Key
def pval(p: Pairs, i: Int): String = as(at(p, i), "internal/keyvalue.Pair").Value
rec first(p: Pairs, k: String, i: Int): Int = if i >= len(p) || i < 0 then 0-1 else if asciifold(k, pkey(p, i)) then i else first(p, k, i+1)
rec vals(p: Pairs, k: String, i: Int): Strs = if i <= 0 then emptyseq("Strs") else vals(p, k, i-1) ++ (if asciifold(pkey(p, i-1), k) then unit(pval(p, i-1)) else emptyseq("Strs"))
rec hask(l: Strs, k: String, i: Int): Bool = i < len(l) && i >= 0 && (asciifold(at(l, i), k) || hask(l, k, i+1))
rec uniq(p: Pairs, i: Int): Strs = if i <= 0 then emptyseq("Strs") else uniq(p, i-1) ++ (if hask(uniq(p, i-1), pkey(p, i-1), 0) then emptyseq("Strs") else unit(pkey(p, i-1)))
fn internal/keyvalue.New() (s)
  ensures empty: s != nil && fresh(s) && len(s.pairs) == 0
fn internal/keyvalue.NewPreAlloc(n) (s)
  requires size: 0 <= n && n <= 1099511627776
  ensures empty: s != nil && fresh(s) && len(s.pairs) == 0
fn internal/keyvalue.Storage.Add(s, key, value) (r)
  modifies grow(s.pairs)
  ensures appended: r == s && seq(s.pairs) == old(seq(s.pairs)) ++ onepair(key, value)
fn internal/keyvalue.Storage.Get(s, key) (v, found)
  let i0 = first(seq(s.pairs), key, 0)
  ensures found: found <==> i0 >= 0
  ensures first: found ==> v == pval(seq(s.pairs), i0)
  ensures none: !found ==> v == ""
  inv [i:int] first(seq(s.pairs), key, 0) == first(seq(s.pairs), key, i)
  inv [i:int] first(seq(s.pairs), key, 0) == first(seq(s.pairs), key, i+1)
fn internal/keyvalue.Storage.Has(s, key) (found)
  ensures found: found <==> first(seq(s.pairs), key, 0) >= 0
  inv [i:int] first(seq(s.pairs), key, 0) == first(seq(s.pairs), key, i)
  inv [i:int] first(seq(s.pairs), key, 0) == first(seq(s.pairs), key, i+1)
fn internal/keyvalue.Storage.ValueOr(s, key, or) (v)
  let i0 = first(seq(s.pairs), key, 0)
  ensures value: v == (if i0 >= 0 then pval(seq(s.pairs), i0) else or)
fn internal/keyvalue.Storage.Value(s, key) (v)
  let i0 = first(seq(s.pairs), key, 0)
  ensures value: v == (if i0 >= 0 then pval(seq(s.pairs), i0) else "")
fn internal/keyvalue.Storage.Values(s, key) (values)
  modifies s.valuesBuff, anymem("string")
  ensures all-in-order: seq(values) == vals(old(seq(s.pairs)), key, old(len(s.pairs)))
  ensures kept: s.pairs == old(s.pairs)
  inv ref(s.valuesBuff) == old(ref(s.valuesBuff)) ==> off(s.valuesBuff) == old(off(s.valuesBuff)) && cap(s.valuesBuff) == old(cap(s.valuesBuff))
  inv ref(s.valuesBuff) != old(ref(s.valuesBuff)) ==> fresh(s.valuesBuff)
  inv [i:int] seq(s.valuesBuff) == vals(old(seq(s.pairs)), key, i)
  inv [i:int] seq(s.valuesBuff) == vals(old(seq(s.pairs)), key, i+1)
fn internal/keyvalue.Storage.Keys(s) (keys)
  modifies s.uniqueBuff, anymem("string")
  ensures first-spellings: seq(keys) == uniq(old(seq(s.pairs)), old(len(s.pairs)))
  inv ref(s.uniqueBuff) == old(ref(s.uniqueBuff)) ==> off(s.uniqueBuff) == old(off(s.uniqueBuff)) && cap(s.uniqueBuff) == old(cap(s.uniqueBuff))
  inv ref(s.uniqueBuff) != old(ref(s.uniqueBuff)) ==> fresh(s.uniqueBuff)
  inv [i:int] seq(s.uniqueBuff) == uniq(old(seq(s.pairs)), i)
  inv [i:int] seq(s.uniqueBuff) == uniq(old(seq(s.pairs)), i+1)
fn internal/keyvalue.contains(collection, key) (r)
  aux
  ensures def: r == hask(seq(collection), key, 0)
  inv [i:int] hask(seq(collection), key, 0) == hask(seq(collection), key, i)
  inv [i:int] hask(seq(collection), key, 0) == hask(seq(collection), key, i+1)
fn internal/keyvalue.Storage.Len(s) (n)
  ensures count: n == len(s.pairs)
fn internal/keyvalue.Storage.Unwrap(s) (p)
  ensures pairs: p == s.pairs
fn internal/keyvalue.Storage.Clear(s) (r)
  modifies s.pairs
  ensures emptied: r == s && len(s.pairs) == 0
fn internal/keyvalue.Storage.Clone(s) (c)
  ensures equal: c != nil && fresh(c) && seq(c.pairs) == seq(s.pairs)
  ensures separate: len(s.pairs) > 0 ==> fresh(c.pairs)
