#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the anchors stay readable)."""
import json, pathlib
B="include/lru/internal/base-cache.hpp"; C="include/lru/cache.hpp"; T="include/lru/timed-cache.hpp"
LA="include/lru/internal/last-accessed.hpp"; BI="include/lru/internal/base-iterator.hpp"
BO="include/lru/internal/base-ordered-iterator.hpp"; BU="include/lru/internal/base-unordered-iterator.hpp"
CM="include/lru/internal/callback-manager.hpp"; SM="include/lru/internal/statistics-mutator.hpp"
S="include/lru/statistics.hpp"; KS="include/lru/key-statistics.hpp"; W="include/lru/wrap.hpp"
H="include/lru/internal/hash.hpp"; U="include/lru/internal/utility.hpp"; I="include/lru/internal/information.hpp"
TI="include/lru/internal/timed-information.hpp"; O="include/lru/internal/optional.hpp"; E="include/lru/entry.hpp"
R="include/lru/insertion-result.hpp"; D="include/lru/internal/definitions.hpp"
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
                   mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None))
P=[]
P.append(p("C01","Lookups tell the truth",
 "On a basic or timed cache, contains, find, lookup and the subscript operator (const and non-const) agree with each other and succeed exactly for the keys that were inserted and have not since been erased, cleared, displaced to respect the capacity or (timed cache) expired; a success yields the value most recently stored for that key, by insertion, update or writing through a returned reference or iterator. For any other key contains returns false, find returns the end iterator, and lookup and the subscript operator throw (KeyNotFound; for an expired key KeyNotFound or KeyExpired), storing nothing.",
 ["histories","inputs"],"All sequences of public operations on a cache, all keys and values, any capacity.",
 "The tests check a few fixed sequences of at most a few operations; stale shortcuts (the remembered last accessed entry) only show in particular operation orders.",
 [B,C,T,LA],[("lookup paths and the last-accessed shortcut",B+": contains/lookup; "+LA),("find",C+", "+T+": find")],
 [("last accessed","pointer to the entry accessed last, consulted before the map",LA)],["contains","find","lookup","operator[]"]))
P.append(p("C02","Capacity is never exceeded and eviction removes the least recently used",
 "A cache never holds more elements than its capacity. Inserting a new key into a full cache removes exactly one element, the one least recently inserted, updated or successfully looked up; updating an existing key or inserting below capacity removes nothing; lowering the capacity or shrinking removes least recently used elements first and only as many as needed (shrinking to at least the current size does nothing and leaves the capacity alone), and raising the capacity removes nothing. A cache of capacity zero stores nothing, and a cache created without a capacity holds 128.",
 ["histories","configurations"],"All sequences of insertions, lookups, erasures, capacity changes and shrinks, all capacities.",
 "Tests evict one or two elements from caches of capacity 1 to 11, mostly without lookups in between.",
 [B,C,T],[("eviction on insertion",B+": _insert_new_key, _evict_lru_for, _is_too_full"),("capacity and shrink",B+": capacity, shrink, _erase_lru")],
 [("capacity","upper bound on the number of elements",B)],["insert/emplace then contains","size","capacity","ordered iteration"]))
P.append(p("C03","Recency order reflects insertions, updates and successful lookups only",
 "Ordered iteration lists the entries from least to most recently used, where a use is an insertion, an update or a successful contains, find, lookup or subscript; on a basic cache front() names the most and back() the least recently used key, and both throw EmptyCache on an empty cache. Failed lookups, iteration and dereferencing, writing through iterators or references, comparisons, copying from the cache, and size, capacity, statistics or expiry queries leave the order unchanged, and erasing an entry keeps the relative order of the others.",
 ["histories"],"All operation sequences.",
 "Tests look at the order after one or two operations on two to four elements.",
 [B,C,T,BO],[("move to front",B+": _move_to_front"),("find",C+", "+T+": find"),("front/back",C)],
 [("order queue","entries in recency order",B)],["ordered_begin..ordered_end","front","back"]))
P.append(p("C04","Erasing and clearing remove exactly what was named",
 "erase(key), erase(iterator) for ordered and unordered, const and non-const iterators, and clear remove exactly the designated entry (or all entries) and nothing else; a removed key is no longer found by any lookup until it is inserted again. erase(key) returns true exactly if the key was stored and otherwise changes nothing; erasing the end iterator throws InvalidIterator and changes nothing; erasing by iterator also works for an expired entry of a timed cache.",
 ["histories"],"All operation sequences, every way of naming the entry, including right after that entry was accessed.",
 "Tests erase by key only, once, right after insertion; no test erases through an iterator.",
 [B,LA],[("erase overloads",B+": erase, _erase, clear")],[],["erase","clear","contains afterwards"]))
P.append(p("C05","Insertion results and size accounting are exact",
 "insert and emplace report true exactly if the key was not present before (an expired key counts as not present), and their iterator designates the entry of that key with the stored value; with capacity zero they report false and the end iterator. Bulk insertion returns how many elements were newly inserted; at all times size() is the number of entries iteration visits, is_empty() means size zero, is_full() means size equals capacity and space_left() is capacity minus size.",
 ["histories","inputs"],"All operation sequences and all insertion overloads.",
 "Tests check the result of one insertion and one update on an empty cache.",
 [B,R],[("insert/emplace results",B+": insert, emplace; "+R),("size queries",B+": size, space_left, is_empty, is_full")],[],["InsertionResult","size","space_left","is_full"]))
P.append(p("C06","Bulk construction, assignment and insertion equal element-wise insertion",
 "Constructing, assigning or inserting from an lvalue or rvalue range, an iterator pair or an initializer list gives the same contents, values and order as inserting the elements one by one in sequence into a cache of the resulting capacity (assignment first discards the old contents). An explicit capacity is used as given; an inferred one is at least the number of elements, and for an iterator pair the larger of that number and 128; assignment raises the capacity to the number of elements if it was lower and otherwise keeps it. An lvalue source range is never modified.",
 ["inputs","histories"],"All element sequences including duplicates and sequences longer than the capacity, all overloads, any prior contents.",
 "Tests use three distinct pairs, one overload each, and never look at the source afterwards.",
 [B,C,T],[("range constructors, assignment and insert",B+": BaseCache(...), operator=(Range), insert(Range), _clear_and_increase_capacity")],[],["ordered iteration","capacity","the source range"]))
P.append(p("C07","Copies are faithful and independent",
 "A copy made by copy construction or copy assignment (from a const or non-const cache) has the same contents, order, capacity, time to live and entry ages, carries the same callbacks, monitors the same statistics object, and from then on behaves as the original would have. Later operations on either cache, including its destruction, never affect the contents, order or later behaviour of the other, the source is left unchanged, and self-assignment changes nothing.",
 ["histories"],"All histories before the copy and all interleaved histories on both caches afterwards, including destroying the original.",
 "Tests copy an empty cache or only read capacity; none operates on a copy of a non-empty cache.",
 [B,C,T],[("copying and re-linking",B+": BaseCache(const BaseCache&), operator=, _reassign_references")],
 [("order links","each entry knows its place in the order queue",I)],["all operations on both caches after the copy"]))
P.append(p("C08","Moving and swapping transfer complete contents",
 "After move construction, move assignment or swap, the receiving cache has exactly the contents, order, capacity and (timed cache) time to live and entry ages the other one had, and behaves from then on as that one would have. A swap exchanges both sides completely, and a moved-from cache can still be destroyed, cleared, assigned to and used within its reported capacity.",
 ["histories"],"All histories before the move or swap, all histories afterwards, both cache kinds.",
 "Tests swap one-element caches and read the capacity after a move; none moves a timed cache or a cache with content and goes on using it.",
 [B,T],[("swap and move",B+": swap, BaseCache(BaseCache&&), operator=(BaseCache&&); "+T+": swap")],[],["all operations after the move"]))
P.append(p("C09","Equality compares contents and recency order",
 "Two caches compare equal exactly if they hold equal keys with equal values in the same recency order (for timed caches also with the same insertion times); capacity, statistics and callbacks do not matter. Inequality is the negation of equality, both are symmetric, a cache equals itself and its copy, and comparing changes nothing.",
 ["histories","inputs"],"All pairs of caches reachable by operation sequences, especially pairs that differ in one value, one key or the order only.",
 "Tests compare caches of at most two entries; values, order and sizes are never the only difference.",
 [B,I,TI],[("operator==",B+": operator==; "+I+", "+TI+": operator==")],[],["operator==","operator!="]))
P.append(p("C10","Iteration visits every entry exactly once, with its current value",
 "Ordered (forwards from begin, backwards from end) and unordered iteration, const and non-const, visit every stored entry exactly once and nothing else; key(), value(), entry(), dereferencing and the first/second members agree and give the current value, and writing through a non-const iterator changes the stored value. Converting an unordered iterator gives the ordered iterator to the same entry, the two compare equal exactly if they denote the same entry (or both are the end), converting the end throws InvalidIteratorConversion, and key(), value() or entry() of an end iterator throws InvalidIterator.",
 ["histories"],"All cache states reachable by operation sequences and all iterator kinds and conversions.",
 "Tests walk forwards over one insertion-only cache and convert iterators on at most three elements.",
 [B,BI,BO,BU,E],[("iterators",BI+", "+BO+", "+BU),("entries",E)],[],["all iterator kinds"]))
P.append(p("C11","Iterators and references survive operations on other entries",
 "An iterator of any kind, and a reference to a value, keeps denoting the same entry with its current value as long as that entry is not erased, evicted or cleared, whatever else is inserted, looked up, updated or erased, including any growth of the cache; after a reordering, stepping an ordered iterator goes to the neighbours in the new order.",
 ["histories"],"All operation sequences between obtaining and using an iterator, including thousands of insertions.",
 "Tests use an iterator after at most two insertions.",
 [B,BI,BO,BU],[("node based map and list, splice",B+": _map, _order, _move_to_front")],[],["iterators kept across operations"]))
P.append(p("C12","Statistics count exactly the lookups",
 "While a statistics object is attached, every contains, find, lookup or subscript on the cache counts as exactly one access, a hit if it succeeded and a miss otherwise (also when it throws and also for an expired key), for the total and for the key if that key is monitored; insertion, erasure, iteration and other operations count nothing. Total misses are accesses minus hits, and with at least one access the hit rate is hits divided by accesses and the miss rate one minus that.",
 ["histories"],"All operation sequences with monitoring attached, detached or exchanged at any point.",
 "Tests check one sequence of eight lookups on a basic cache; no test checks statistics of a timed cache.",
 [B,C,T,SM,S],[("hit and miss registration",B+": _register_hit, _register_miss, contains, lookup; "+C+", "+T+": find; "+SM)],
 [("counters","total accesses and hits, per-key hits and misses",S)],["stats()"]))
P.append(p("C13","Statistics attachment and key monitoring",
 "A statistics object shared by several caches receives the accesses of all of them and of no other cache; a cache without one reports is_monitoring() false and throws NotMonitoring from stats(); after stop_monitoring or after attaching another object the earlier object no longer changes. Keys can be monitored (keeping existing counts), unmonitored, reset singly or all together (counts return to zero, monitoring goes on, totals unaffected) at any time; asking for, resetting or unmonitoring an unmonitored key throws UnmonitoredKey.",
 ["histories","inputs"],"All sequences of monitoring operations interleaved with lookups on several caches.",
 "Tests drive the internal counter object directly and share it between no two caches; resetting is not tested at all.",
 [S,KS,SM,B],[("attachment",B+": monitor, stop_monitoring, stats, shared_stats"),("key management",S)],[],["Statistics","stats()","shared_stats()"]))
P.append(p("C14","Callbacks fire exactly once per lookup with the right arguments",
 "Each contains, find, lookup or subscript invokes every registered hit callback exactly once with the key and its current value if it succeeded, every miss callback exactly once with the key if it did not, and every access callback exactly once with the key and whether it succeeded, also for expired keys. No other operation invokes any callback, and a cleared kind of callback is no longer invoked while the other kinds stay registered.",
 ["histories"],"All operation sequences with any number of callbacks registered and cleared at any point.",
 "Tests register one callback per kind on a basic cache and check a handful of lookups.",
 [CM,B,C,T],[("notification",CM+": hit, miss; "+B+": _register_hit, _register_miss")],[],["callback invocations"]))
P.append(p("C15","Timed entries are accessible exactly until their time to live has passed",
 "A key of a timed cache is found by contains, find, lookup and the subscript operator exactly while its age, counted from its insertion in the cache's duration type, is at most the time to live; once older it is treated as not present, and inserting it again stores it afresh with age zero. Lookups, updates of a live key and operations on other keys do not change an entry's age, the unit in which the time to live is given does not matter, and changes of the system (wall) clock have no effect.",
 ["histories","inputs","schedules"],"All operation sequences interleaved with arbitrary passage of time, to the clock tick around the deadline; all times to live.",
 "Tests sleep for one or two milliseconds, so they cannot reach deadlines exactly, cover few interleavings and are excluded here as unreliable.",
 [T,TI,B,D],[("expiry test",T+": _has_expired, find, _last_accessed_is_ok, _value_for_last_accessed"),("insertion time",TI)],
 [("insertion time","when the entry was inserted",TI),("time to live","age after which an entry is expired",T)],["contains","find","lookup","operator[]"]))
P.append(p("C16","Expiry queries and cleanup are exact",
 "all_expired() is true exactly if every stored entry has expired (also when there is none); clear_expired() removes exactly the expired entries, returns how many, and keeps the others and their order. has_expired(key or iterator) is true exactly for a stored expired entry; is_valid(iterator) is true exactly for an iterator to an entry that has not expired; throw_if_invalid, key(), value() and entry() throw KeyExpired for an expired entry and InvalidIterator for the end, while dereferencing never throws.",
 ["histories","schedules"],"All operation sequences interleaved with passage of time, in particular lookups that change the order of entries of different age.",
 "Tests only have insertion order equal to age order.",
 [T,B,BO,BU],[("expiry management",T+": all_expired, clear_expired, has_expired, is_valid, throw_if_invalid")],[],["all_expired","clear_expired","has_expired","is_valid"]))
P.append(p("C17","Before anything expires a timed cache behaves like a basic cache",
 "As long as no entry has outlived the time to live, every operation sequence gives the same results, contents, order, evictions, statistics and callback invocations on a timed cache as on a basic cache of the same capacity.",
 ["histories"],"All operation sequences available on both kinds, run on both side by side.",
 "Each kind has its own tests; no test compares them and those of the timed cache are few.",
 [T,C,B,TI],[("separate find implementations",C+", "+T+": find"),("shared base",B)],[],["all common operations"]))
P.append(p("C18","A wrapped function is transparent memoisation",
 "A function returned by wrap gives for every call the result the original function gave for equal arguments, and calls the original exactly when no result for equal arguments is cached, where the cached results follow the least-recently-used rule for the capacity given to wrap (default 128; with capacity zero every call goes through). Wrappers created separately never share results, even for the same function or functions of the same type; whether arguments are passed as lvalues or rvalues does not matter; an exception from the original propagates and nothing is cached for that call.",
 ["histories","inputs","configurations"],"All call sequences over several wrappers, argument types and capacities.",
 "Tests wrap one lambda per test and call it at most five times; every wrapper has a type of its own.",
 [W,H,U],[("wrap",W+": wrap"),("argument hashing",H)],[("wrapper cache","results by argument tuple",W)],["return values","calls of the original"]))
P.append(p("C19","A timed wrapper recomputes after the time to live and only then",
 "A function returned by timed_wrap behaves as one returned by wrap except that a result is reused exactly while its age is at most the time to live given; a later call with equal arguments calls the original again and the new result is then reused for a full time to live.",
 ["histories","schedules"],"All call sequences interleaved with arbitrary passage of time.",
 "The test calls a wrapper with a long time to live twice at once; it never lets a result expire.",
 [W,T],[("timed_wrap",W+": timed_wrap")],[],["return values","calls of the original"]))
P.append(p("C20","Custom hash and key equality are honoured everywhere",
 "With any key equality that is an equivalence relation and any hash consistent with it, however many collisions it has and whatever state the function objects carry, the cache behaves as if every key were replaced by a representative of its class under default hash and equality, in every operation and also after copying, moving or swapping the cache. hash_function() and key_equal() return the functions supplied.",
 ["configurations","histories","inputs"],"All equivalence relations and hashes from a parametrised family, including constant hashes and stateful function objects; all operation sequences.",
 "Tests only count calls of a custom equality once; the relation is always plain equality.",
 [B,LA],[("function objects passed to map and last-accessed record",B+": constructors; "+LA+": operator==")],[],["all operations"]))
P.append(p("C21","No memory errors and prompt release of removed entries",
 "No sequence of valid operations, on any number of caches being copied, moved, swapped and destroyed, reads or writes freed or foreign memory, leaks, or has undefined behaviour. Between operations the number of live value objects owned by caches equals the total number of stored entries, so erased, evicted, cleared, overwritten and destroyed contents are released at once and nothing is released twice.",
 ["histories"],"All operation sequences on several caches with iterators and references kept in use while their entries live.",
 "The tests are not run under sanitizers and never count live objects.",
 [B,BI,BO,BU,LA],[("ownership in the map, references in queue and last-accessed record",B+": _map, _order; "+LA)],[],["sanitizers","live object count"]))
P.append(p("C22","A failed insertion leaves the cache intact",
 "If constructing, copying or moving a key or value, or allocating memory, throws during insert or emplace, the exception reaches the caller, no other entry is lost or changed, the key concerned is absent if it was absent and otherwise keeps a valid value, and the cache stays fully usable with consistent size, contents and order. A bulk insertion that fails midway keeps the elements inserted before the failure.",
 ["fault_sequences","histories"],"Every point at which an element operation or allocation of an insertion can throw, after any history.",
 "No test injects a failure.",
 [B,I,TI],[("insertion steps",B+": insert, emplace, _insert_new_key")],[],["state after the exception"]))
P.append(p("C23","Emplacement forwards, insertion copies once, nothing else is consumed",
 "Emplacing a new key constructs key and value from the forwarded arguments (any number, via piecewise tuples, moving from rvalues and copying from lvalues) without copying a key or value object; moving a range in moves from its elements and copies none for new keys. insert with lvalues copies key and value once each when the key is new and leaves the arguments unchanged, also when the arguments refer to elements of the same cache.",
 ["inputs","histories"],"All argument forms, sizes and cache states, including aliasing arguments.",
 "Tests count copies for a single element in an empty cache.",
 [B,U,I,TI],[("forwarding",B+": emplace, insert(Range&&); "+U+": construct_from_tuple; "+I)],[],["copy and move counters","arguments afterwards"]))
P.append(p("C24","Operations cost a constant number of hash computations and key comparisons",
 "With a well-distributing hash, each single-key operation performs a number of hash computations and key comparisons bounded by a constant, independent of the size of the cache; eviction, lookup and erasure never scan the entries. Right after a key was successfully inserted, found or looked up, a further contains, lookup or subscript of that key computes no hash at all.",
 ["histories","inputs"],"All operation sequences on caches from a few to thousands of entries.",
 "Tests count one comparison on a cache with one entry.",
 [B,C,T,LA],[("hash map plus queue, last-accessed shortcut",B+", "+LA)],[],["counting hash and equality functions"]))
P.append(p("C25","The library behaves the same with std::optional and with its own replacement",
 "All operations, including iterator assignment, swapping and conversion, compile with the standard library's optional (C++17 and later) as well as with the bundled replacement, and every operation sequence gives the same observable results in both configurations.",
 ["configurations","histories"],"All operation sequences, both configurations side by side.",
 "The test build forces the bundled replacement.",
 [O,BI,BO,BU],[("selection of the optional type",O),("cached entries in iterators",BI)],[],["all iterator operations in both builds"]))
pathlib.Path(__file__).resolve().parents[1].joinpath("properties.jsonl").write_text("".join(json.dumps(x)+"\n" for x in P))
