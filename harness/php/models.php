<?php
// Bounded models of single classes: initial contents and calls. The outcomes come from the specification (spec/MCTeds.tla).
require_once __DIR__ . '/pools.php';
final class U { public static array $val = []; public static function v($x): int { $i = T::v($x); self::$val[$i] = $x; return $i; } public static function vs(array $a): array { return array_map([self::class, 'v'], $a); } }

/** calls on a sequence: o offsets, v values */
function seqcalls(string $c, array $v, array $o, bool $few = false): array {
    $r = []; $mut = fn($op, ...$a) => [$op, $a, 1]; $get = fn($op, ...$a) => [$op, $a, 0];
    foreach ($v as $x) { $r[] = $mut('push', $x); $r[] = $mut('pushFront', $x); }
    $r[] = $mut('push', $v[0], $v[1]); $r[] = $mut('pushFront', $v[0], $v[1]);
    foreach ($o as $k) { $r[] = $mut('insert', $k, $v[0]); $r[] = $mut('[]unset', $k); $r[] = $get('get', $k); }
    $r[] = $mut('insert', 1, $v[1], $v[0]); $r[] = $mut('pop'); $r[] = $mut('popFront'); $r[] = $mut('clear');
    foreach ($v as $x) $r[] = $mut('set', 1, $x);
    if (in_array($c, ['Vector', 'BitVector'])) { foreach ([0, 2] as $n) $r[] = $few ? $mut('setSize', $n, $v[0]) : $mut('setSize', $n); $r[] = $mut('setSize', 4, $v[1]); }
    if ($c === 'Vector') { $r[] = $mut('reserve', 6); $r[] = $mut('shrinkToFit'); }
    foreach ($v as $x) { $r[] = $get('indexOf', $x); $r[] = $get('contains', $x); }
    if (!$few) {
        $r[] = $get('unshift', $v[1]); $r[] = $get('shift'); $r[] = $get('[]push', $v[0]); $r[] = $get('[]set', 0, $v[1]); $r[] = $get('offsetSet', 2, $v[0]); $r[] = $get('offsetUnset', 0); $r[] = $get('push'); $r[] = $get('insert', 0);
        foreach (['first', 'last', 'count', 'count()', 'isEmpty', 'toArray', 'values', 'foreach', 'foreachkv', 'jsonSerialize', 'iterator_to_array', 'capacity'] as $op) if ($op !== 'capacity' || $c !== 'ImmutableSequence') $r[] = $get($op);
        foreach ([0, 2] as $k) { $r[] = $get('[]isset', $k); $r[] = $get('[]??', $k, 'd'); $r[] = $get('containsKey', $k); $r[] = $get('[]get', $k); }
        if ($c === 'IntVector') { $r[] = $get('pushInts', $v[0]); $r[] = $get('setInt', 0, $v[1]); $r[] = $get('push', $v[0], 'x'); $r[] = $get('pushFront', $v[0], null); $r[] = $get('insert', 0, $v[1], 1.5); $r[] = $get('set', 0, '1'); }
        if ($c === 'BitVector') { $r[] = $get('pushBits', true); $r[] = $get('setBit', 0, false); $r[] = $get('getUInt8', 0); $r[] = $get('getInt8', 0); $r[] = $mut('setInt8', 0, 0x5a); $r[] = $get('toBinaryString'); $r[] = $get('push', true, 1); $r[] = $get('set', 0, 1); }
    }
    return $r;
}
function mapcalls(string $c, array $ks, array $vs): array {
    $r = []; $mut = fn($op, ...$a) => [$op, $a, 1]; $get = fn($op, ...$a) => [$op, $a, 0];
    foreach ($ks as $k) { foreach ($vs as $v) $r[] = $mut('[]set', $k, $v); $r[] = $mut('[]unset', $k); $r[] = $get('get', $k); $r[] = $get('containsKey', $k); $r[] = $get('[]isset', $k); }
    if ($c !== 'StrictHashMap') { $r[] = $mut('pop'); $r[] = $mut('popFront'); foreach (['first', 'last', 'firstKey', 'lastKey'] as $op) $r[] = $get($op); }
    $r[] = $mut('clear'); foreach ($vs as $v) $r[] = $get('contains', $v);
    foreach (['keys', 'values', 'toPairs', 'count', 'isEmpty', 'foreach', 'foreachkv', 'jsonSerialize'] as $op) $r[] = $get($op);
    $r[] = $get('get', $ks[0], 'd'); $r[] = $get('[]push', 1); $r[] = $get('offsetSet', $ks[1], $vs[0]); $r[] = $get('offsetUnset', $ks[1]); $r[] = $get('[]??', $ks[0], 'd');
    return $r;
}
function setcalls(string $c, array $ks): array {
    $r = []; $mut = fn($op, ...$a) => [$op, $a, 1]; $get = fn($op, ...$a) => [$op, $a, 0];
    foreach ($ks as $k) { $r[] = $mut('add', $k); $r[] = $mut('remove', $k); $r[] = $get('contains', $k); }
    if ($c !== 'StrictHashSet') { $r[] = $mut('pop'); if (method_exists("Teds\\$c", 'popFront')) $r[] = $mut('popFront'); foreach (['first', 'last'] as $op) $r[] = $get($op); }
    if ($c === 'SortedIntVectorSet') { foreach ([0, 2, -1] as $o) $r[] = $get('get', $o); $r[] = $get('indexOf', $ks[1]); }
    $r[] = $mut('clear');
    foreach (['values', 'count', 'isEmpty', 'foreach', 'foreachkv', 'jsonSerialize'] as $op) $r[] = $get($op);
    return $r;
}
function heapcalls(array $vs): array {
    $r = []; foreach ($vs as $v) { $r[] = ['add', [$v], 1]; $r[] = ['contains', [$v], 0]; }
    $r[] = ['extract', [], 1]; $r[] = ['clear', [], 1]; foreach (['top', 'count', 'isEmpty', 'values', 'valid'] as $op) $r[] = [$op, [], 0];
    return $r;
}
function kvcalls(array $ks, array $vs): array {
    $r = []; $mut = fn($op, ...$a) => [$op, $a, 1]; $get = fn($op, ...$a) => [$op, $a, 0];
    foreach ($ks as $k) { foreach ($vs as $v) $r[] = $mut('push', $k, $v); $r[] = $get('indexOfKey', $k); $r[] = $get('containsKey', $k); }
    foreach ($vs as $v) { $r[] = $get('indexOfValue', $v); $r[] = $get('contains', $v); }
    $r[] = $mut('pop'); $r[] = $mut('clear'); foreach ([0, 2, 4, -1] as $n) $r[] = $mut('setSize', $n); $r[] = $mut('shrinkToFit');
    foreach ([0, 1, 3, -1] as $o) { $r[] = $mut('setKeyAt', $o, $ks[0]); $r[] = $mut('setValueAt', $o, $vs[0]); $r[] = $get('keyAt', $o); $r[] = $get('valueAt', $o); }
    foreach (['keys', 'values', 'toPairs', 'count', 'isEmpty', 'foreach', 'foreachkv', 'jsonSerialize'] as $op) $r[] = $get($op);
    return $r;
}
/** the changes alone */
function changes(array $calls): array { return array_values(array_filter($calls, fn($x) => $x[2])); }
/** contents to start from */
function grown(array $v, array $sizes): array { $r = []; foreach ($sizes as $n) { $x = []; for ($i = 0; $i < $n; $i++) $x[] = $v[$i % count($v)]; $r[] = $x; } return $r; }
function pairup(array $ks, $v): array { return array_map(fn($k) => [$k, $v], $ks); }
function model(string $name): array {
    $big = 1 << 40; [$o1, $o2] = [fixed()['o1'], fixed()['o2']];
    [$c, $kind] = explode(':', "$name:");
    $m = match ($name) {
        'Vector:' => ['max' => 5, 'calls' => seqcalls($c, [1, 'a'], [0, 1, 3, -1, 6]), 'inits' => [[]]],
        'Deque:' => ['max' => 5, 'calls' => seqcalls($c, [1, 'a'], [0, 1, 3, -1, 6]), 'inits' => [[]]],
        'Deque:8' => ['max' => 9, 'calls' => changes(seqcalls($c, [1, 'a'], [0, 2, 4, 7], true)), 'inits' => grown([1, 'a'], [7, 8])],
        'Vector:8' => ['max' => 9, 'calls' => changes(seqcalls($c, [1, 'a'], [0, 2, 4, 7], true)), 'inits' => grown([1, 'a'], [7, 8])],
        'ImmutableSequence:' => ['max' => 5, 'calls' => array_map(fn($x) => [$x[0], $x[1], 1], seqcalls($c, [1, 'a'], [0, 1, 3, -1])), 'inits' => grown([1, 'a'], [0, 1, 2, 5])],
        'IntVector:' => ['max' => 3, 'calls' => seqcalls($c, [1, 200, 70000, $big], [0, 1, 3, -1]), 'inits' => [[]]],
        'LowMemoryVector:' => ['max' => 2, 'calls' => seqcalls($c, [true, false, null, 1, 300, 70000, $big, 1.5, 'x'], [0, 1, 2, -1]), 'inits' => [[]]],
        'LowMemoryVector:b' => ['max' => 6, 'calls' => seqcalls($c, [true, false, null], [0, 1, 3, 5]), 'inits' => [[], [true, false, true, true]]],
        'BitVector:' => ['max' => 9, 'calls' => seqcalls($c, [true, false], [0, 1, 5, 8, -1]), 'inits' => [[], [true, false, true, true, false, false, true]]],
        'StrictHashMap:' => ['max' => 4, 'calls' => mapcalls($c, [1, '1', null, 'k'], [1, null]), 'inits' => [[]]],
        'StrictHashMap:8' => ['max' => 9, 'calls' => changes(mapcalls($c, [1, 3, 7, 8, 'z'], [1])), 'inits' => [pairup([1, 2, 3, 4, 5, 6, 7], 1), pairup([1, 2, 3, 4, 5, 6, 7, 8], 1)]],
        'StrictHashMap:u' => ['max' => 4, 'calls' => mapcalls($c, ['a', [1], $o1, $o2], [1]), 'inits' => [[]]],
        'StrictTreeMap:', 'StrictSortedVectorMap:' => ['max' => 5, 'calls' => mapcalls($c, [1, 2, 3, 'a', null], [1, null]), 'inits' => [[]]],
        'StrictHashSet:' => ['max' => 5, 'calls' => setcalls($c, [1, '1', 1.0, null, $o1]), 'inits' => [[]]],
        'StrictHashSet:8' => ['max' => 9, 'calls' => changes(setcalls($c, [1, 3, 7, 8, 'z'])), 'inits' => [[1, 2, 3, 4, 5, 6, 7], [1, 2, 3, 4, 5, 6, 7, 8]]],
        'StrictTreeSet:', 'StrictSortedVectorSet:' => ['max' => 6, 'calls' => setcalls($c, [1, 2, '1', null, 1.5, [1]]), 'inits' => [[]]],
        'SortedIntVectorSet:' => ['max' => 5, 'calls' => setcalls($c, [1, -1, 200, 70000, $big]), 'inits' => [[]]],
        'StrictMinHeap:', 'StrictMaxHeap:' => ['max' => 6, 'calls' => heapcalls([1, 2, 3, 1.0]), 'inits' => [[]]],
        'MutableIterable:' => ['max' => 4, 'calls' => kvcalls([1, null], [1, 'a']), 'inits' => [[]]],
        'CachedIterable:lazy' => ['max' => 3, 'lazy' => 1, 'calls' => lazycalls([1, 'k'], ['a', null], [0, 1, 2, 3]), 'inits' => lazysources([[], [[1, 'a']], [[1, 'a'], ['k', 1], [1, null]]])],
        'CachedIterable:dup' => ['max' => 4, 'lazy' => 1, 'calls' => lazycalls([1, null], ['a', 'b'], [0, 3]), 'inits' => lazysources([[[1, 'a'], [1, 'a'], [null, 'b'], [2, 'a']]])],
        // with an iterator
        'Vector:it', 'Deque:it' => ['iter' => 1, 'max' => 4, 'calls' => array_merge(changes(seqcalls($c, [1, 'a'], [0, 1, 2, 3], true))), 'inits' => [[1, 'a', 1]]],
        'IntVector:it' => ['iter' => 1, 'max' => 4, 'calls' => changes(seqcalls($c, [1, 300], [0, 1, 2, 3], true)), 'inits' => [[1, 300, 1]]],
        'LowMemoryVector:it' => ['iter' => 1, 'max' => 4, 'calls' => changes(seqcalls($c, [1, 'a'], [0, 1, 2, 3], true)), 'inits' => [[1, 'a', 1]]],
        'BitVector:it' => ['iter' => 1, 'max' => 4, 'calls' => changes(seqcalls($c, [true, false], [0, 1, 2, 3], true)), 'inits' => [[true, false, true]]],
        'StrictHashMap:it', 'StrictTreeMap:it', 'StrictSortedVectorMap:it' => ['iter' => 1, 'max' => 4, 'calls' => changes(mapcalls($c, [1, 2, 3, 'b'], [1])), 'inits' => [pairup([1, 2, 3], 1)]],
        'StrictHashSet:it', 'StrictTreeSet:it', 'StrictSortedVectorSet:it' => ['iter' => 1, 'max' => 4, 'calls' => changes(setcalls($c, [1, 2, 3, 'b'])), 'inits' => [[1, 2, 3]]],
        'SortedIntVectorSet:it' => ['iter' => 1, 'max' => 4, 'calls' => changes(setcalls($c, [1, 2, 3, 300])), 'inits' => [[1, 2, 3]]],
        'MutableIterable:it' => ['iter' => 1, 'max' => 4, 'calls' => changes(kvcalls([1, null], ['a'])), 'inits' => [[[1, 'a'], [null, 'a'], [1, 'b']]]],
        // with a copy
        'Vector:cp', 'Deque:cp' => ['copy' => 1, 'max' => 3, 'calls' => changes(seqcalls($c, [1, 'a'], [0, 1, 2], true)), 'inits' => [[], [1, 'a']]],
        'IntVector:cp' => ['copy' => 1, 'max' => 3, 'calls' => changes(seqcalls($c, [1, 300], [0, 1, 2], true)), 'inits' => [[], [1, 300]]],
        'LowMemoryVector:cp' => ['copy' => 1, 'max' => 3, 'calls' => changes(seqcalls($c, [true, 'a'], [0, 1, 2], true)), 'inits' => [[], [true, 'a']]],
        'BitVector:cp' => ['copy' => 1, 'max' => 3, 'calls' => changes(seqcalls($c, [true, false], [0, 1, 2], true)), 'inits' => [[], [true, false]]],
        'StrictHashMap:cp', 'StrictTreeMap:cp', 'StrictSortedVectorMap:cp' => ['copy' => 1, 'max' => 3, 'calls' => changes(mapcalls($c, [1, 2, 'b'], [1])), 'inits' => [[], pairup([1, 2, 'b'], 1)]],
        'StrictHashSet:cp', 'StrictTreeSet:cp', 'StrictSortedVectorSet:cp' => ['copy' => 1, 'max' => 4, 'calls' => changes(setcalls($c, [1, 2, 3, 'b'])), 'inits' => [[], [1, 2, 3]]],
        'SortedIntVectorSet:cp' => ['copy' => 1, 'max' => 4, 'calls' => changes(setcalls($c, [1, 2, 3, 300])), 'inits' => [[], [1, 2, 3]]],
        'StrictMinHeap:cp', 'StrictMaxHeap:cp' => ['copy' => 1, 'max' => 4, 'calls' => changes(heapcalls([1, 2, 3])), 'inits' => [[], [3, 1, 2]]],
        'MutableIterable:cp' => ['copy' => 1, 'max' => 3, 'calls' => changes(kvcalls([1, null], ['a'])), 'inits' => [[], [[1, 'a'], [null, 'a']]]],
    };
    return ['class' => $c] + $m + ['iter' => 0, 'copy' => 0];
}
/** a lazily read collection: [pairs, where the source fails, kind, in which method] */
function lazycalls(array $ks, array $vs, array $o): array {
    $r = []; foreach ($ks as $k) foreach (['indexOfKey', 'containsKey'] as $w) $r[] = [$w, [$k], 1];
    foreach ($vs as $v) foreach (['indexOfValue', 'contains'] as $w) $r[] = [$w, [$v], 1];
    foreach ($o as $n) foreach (['keyAt', 'valueAt'] as $w) $r[] = [$w, [$n], 1];
    foreach (['isEmpty', 'count', 'toPairs', 'foreachkv', 'keys', 'values', 'count()', 'jsonSerialize'] as $w) $r[] = [$w, [], $w === 'isEmpty' || $w === 'count' ? 1 : 0];
    return $r;
}
function lazysources(array $lists): array {
    $r = [];
    foreach ($lists as $l) {
        $n = count($l); $r[] = [$l, -1, 'it', '']; $r[] = [$l, -1, 'gen', ''];
        for ($f = 0; $f <= $n; $f++) {
            foreach (['valid', 'current', 'key', 'next'] as $in) if (!($f === 0 && $in === 'next') && !($f === $n && ($in === 'current' || $in === 'key'))) $r[] = [$l, $f, 'it', $in];
            if ($f > 0) $r[] = [$l, $f, 'gen', ''];
        }
    }
    return $r;
}
/** writes the value table, the calls and the initial contents of a model, as indices of the table */
function prepared(string $name): array {
    $m = model($name); $kv = KIND[$m['class']] === 'kv';
    foreach ($m['calls'] as &$x) $x = ['op' => $x[0], 'a' => U::vs($x[1]), 'k' => $x[2]]; unset($x);
    $m['from'] = $m['inits'];
    if (isset($m['lazy'])) { foreach ($m['inits'] as &$x) $x = ['m' => array_map(fn($p) => [U::v($p[0]), U::v($p[1])], $x[0]), 'f' => $x[1], 's' => $x[2]]; return $m; }
    foreach ($m['inits'] as &$x) $x = ['m' => $kv ? array_map(fn($p) => [U::v($p[0]), U::v($p[1])], $x) : U::vs($x)];
    return $m;
}
