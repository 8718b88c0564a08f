# test.sh WORKTREE
W=$1; B=$W/_tb; mkdir -p $B; cd $W/tests
for f in move-awareness last-accessed iterator cache timed-cache statistics wrap callback; do
 g++ -std=c++1z -g -w -DDEBUG -include /opt/vp/cmake/prelude.hpp -I$W -I$W/include -c $f-test.cpp -o $B/$f.o > $B/$f.log 2>&1 || { echo "compile $f"; head -5 $B/$f.log; touch $B/err; } &
done
for e in $W/examples/*.cpp; do g++ -std=c++1z -w -fsyntax-only -include /opt/vp/cmake/prelude.hpp -I$W -I$W/include $e >/dev/null 2>&1 || { echo "example $e"; touch $B/err; } & done
wait
[ -e $B/err ] && exit 1
g++ $B/*.o -lgtest -lgtest_main -lpthread -o $B/t || exit 1
$B/t --gtest_list_tests | sed 's/ *#.*//' | awk '/^[^ ].*\.$/ {s=$1; next} /^  / && s {print s $1}' | grep -v "DISABLED_\|^TimedCacheTest\.\|UsesCustomHashFunction" > $B/ids
rc=0
while read id; do timeout 20 $B/t --gtest_filter=$id > $B/o 2>&1 || { echo "FAILED $id"; rc=1; }; done < $B/ids
wc -l < $B/ids
exit $rc
