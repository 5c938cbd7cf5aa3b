<?php
// A collection with more entries than 16 bits can count: few steps, looked at seldom.
const HUGE = [
    'C01' => ['Vector', 'Deque', 'Deque', 'ImmutableSequence'], 'C02' => ['IntVector', 'LowMemoryVector'], 'C03' => ['BitVector'], 'C04' => ['StrictHashMap', 'StrictHashSet'],
    'C05' => ['StrictTreeMap', 'StrictTreeSet', 'StrictSortedVectorMap', 'StrictSortedVectorSet'], 'C06' => ['SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet'],
    'C08' => ['StrictMinHeap', 'StrictMaxHeap'], 'C16' => ['CachedIterable'], 'C17' => ['MutableIterable', 'ImmutableIterable'],
    'C12' => ['Vector', 'Deque', 'IntVector', 'LowMemoryVector', 'BitVector', 'StrictHashMap', 'StrictHashSet', 'StrictTreeMap', 'StrictTreeSet', 'StrictSortedVectorMap', 'StrictSortedVectorSet', 'SortedIntVectorSet', 'ImmutableSortedStringSet', 'StrictMinHeap', 'MutableIterable', 'ImmutableSequence'],
];
/** offsets around the places where a count no longer fits */
function farof(int $n): int { return match (r(0, 5)) { 0 => r(0, 3), 1 => max(0, $n - r(0, 3)), 2, 3 => min($n, 65536 + r(-3, 3)), 4 => min($n, one([255, 256, 32767, 32768, 65535])), default => r(0, $n) }; }
function inorder($a, $b): int { return is_string($a) <=> is_string($b) ?: (is_string($a) ? strcmp($a, $b) : $a <=> $b); }
function hugelazy(): void {
    $n = one([65535, 65536, 65537, 66000]); $pairs = []; for ($i = 0; $i < $n; $i++) $pairs[] = [$i * 17 % 30011, $i % 13]; $fail = chance(40) ? r(65530, $n) : -1; T::pend("huge CachedIterable of $n");
    if (chance(50)) { $src = new LazyCount; $s = lazygen($src, $pairs, $fail); $gen = true; } else { $src = $s = new LazySrc($pairs, $fail, 'valid'); $gen = false; }
    $o = new Teds\CachedIterable($s); unset($s); $h = T::add($o); unset($o);
    T::emit(['op' => 'lznew', 'c' => 'CachedIterable', 'm' => array_map(fn($p) => [T::v($p[0]), T::v($p[1])], $pairs), 'f' => $fail, 's' => $gen ? 'gen' : 'it', 'z' => 0, 'n' => $h]);
    for ($j = 12; $j > 0; $j--) { $w = one(['keyAt', 'valueAt', 'valueAt', 'indexOfKey', 'isEmpty', 'containsKey']); lz($h, $src, $w, match ($w) { 'keyAt', 'valueAt' => [chance(50) ? farof($n) : r(0, 65540)], 'isEmpty' => [], default => [chance(60) ? one($pairs)[0] : 30011] }); }
    lz($h, $src, 'count', []); lz($h, $src, 'keyAt', [$n - 1]); lz($h, $src, 'toPairs', []);
}
function huge(string $camp): void {
    if ($camp === 'C16') { hugelazy(); return; }
    $c = one(HUGE[$camp]); $cls = "Teds\\$c"; $n = one([65534, 65535, 65536, 65537, 65600, 66000, 70000]); T::pend("huge $c of $n");
    $k = KIND[$c]; $val = match ($c) {
        'BitVector' => fn($i) => ($i * $i + intdiv($i, 7)) % 3 === 0, 'IntVector' => (function () { $m = one([1, 1, 257, 1 << 21, 1 << 40]); return fn($i) => ($i * 17 % 97 - 50) * $m; })(),
        'LowMemoryVector' => one([fn($i) => $i * 17 % 97 - 50, fn($i) => $i * 31 % 30011, fn($i) => $i % 7 * (1 << 33), fn($i) => $i * $i % 3 === 0, fn($i) => $i % 11 * 0.25, fn($i) => $i % 5 ? $i % 97 : 'x' . $i % 13]),
        'ImmutableSortedStringSet' => fn($i) => base_convert((string)($i * 40503 % 1048576), 10, 36), 'SortedIntVectorSet', 'ImmutableSortedIntSet' => (function () { $m = one([1, 3, 1 << 33]); return fn($i) => ($i * 40503 % 1048576 - 99999) * $m; })(),
        'Vector', 'Deque', 'ImmutableSequence' => fn($i) => $i * 17 % 1009, 'StrictMinHeap', 'StrictMaxHeap' => fn($i) => $i * 40503 % 30011,
        'StrictSortedVectorMap', 'StrictSortedVectorSet' => fn($i) => 4 * $i + ($i % 37 ? 0 : 1001),
        default => chance(70) ? fn($i) => $i * 40503 % 1048576 : fn($i) => $i % 2 ? $i : "k$i",
    };
    $vals = []; for ($i = 0; $i < $n; $i++) $vals[] = $val($i);
    $pairs = $k === 'kv'; if ($pairs) foreach ($vals as $i => $v) $vals[$i] = [$v, $i % 13];
    $mut = !str_starts_with($c, 'Immutable');
    if ($mut && chance(40) && $k !== 'heap' && $c !== 'SortedIntVectorSet' && !str_starts_with($c, 'StrictSortedVector')) { // grown one by one
        $o = new $cls([]);
        foreach ($vals as $v) { if ($c === 'MutableIterable') $o->push($v[0], $v[1]); elseif ($pairs) $o[$v[0]] = $v[1]; elseif ($k === 'seq') $o->push($v); else $o->add($v); }
    } elseif ($c === 'Deque' && chance(50)) { $o = new $cls([]); for ($i = intdiv($n, 3); $i < $n; $i++) $o->push($vals[$i]); for ($i = intdiv($n, 3) - 1; $i >= 0; $i--) $o->pushFront($vals[$i]); }
    else $o = $pairs ? $cls::fromPairs($vals) : (chance(50) ? new $cls($vals) : new $cls(new ArrayIterator($vals)));
    if (in_array($c, ['StrictTreeMap', 'StrictTreeSet', 'StrictSortedVectorMap', 'StrictSortedVectorSet', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet'])) // in the order they are to come in
        usort($vals, fn($a, $b) => $pairs ? inorder($a[0], $b[0]) : inorder($a, $b));
    $h = T::add($o); $m = $pairs ? array_map(fn($p) => [T::v($p[0]), T::v($p[1])], $vals) : T::vs($vals); if ($k === 'heap') sort($m);
    T::emit(['op' => 'make', 'c' => $c, 'n' => $h, 'm' => $m], [$h]);
    $new = fn() => $val(r(0, $n + 20)); $key = fn() => $pairs ? one($vals)[0] : one($vals);
    for ($j = $camp === 'C12' ? 4 : ($k === 'heap' ? 9 : 25); $j > 0; $j--) {
        $s = count(T::$objs[$h]);
        if ($k === 'seq') {
            $op = one($mut ? ['push', 'pop', 'pushFront', 'popFront', 'insert', '[]unset', 'set', 'get', '[]get', 'indexOf', 'contains', 'containsKey', 'first', 'last', 'count', '[]set', '[]isset'] : ['get', '[]get', 'indexOf', 'contains', 'containsKey', 'first', 'last', 'count', '[]isset']);
            $a = match ($op) { 'push', 'pushFront' => array_map(fn() => $new(), range(1, r(1, 5))), 'insert' => [farof($s), ...array_map(fn() => $new(), range(1, r(1, 5)))], '[]unset', 'get', '[]get', 'containsKey', '[]isset' => [farof($s)], 'set', '[]set' => [farof($s), $new()], 'indexOf', 'contains' => [chance(70) ? $key() : match ($c) { 'BitVector' => true, 'IntVector' => 12345678, default => -77 }], default => [] };
            if ($c === 'BitVector' && in_array($op, ['indexOf', 'contains'])) $a = [$key()];
        } elseif ($k === 'heap') { $op = one(['add', 'extract', 'extract', 'top', 'count', 'contains']); $a = match ($op) { 'add', 'contains' => [$new()], default => [] }; }
        elseif ($k === 'set') { $op = one($mut ? ['add', 'remove', 'contains', 'count'] : ['contains', 'count', 'get', 'indexOf', 'first', 'last']); $a = match ($op) { 'add', 'remove', 'contains', 'indexOf' => [chance(60) ? $key() : $new()], 'get' => [farof($s)], default => [] }; }
        elseif ($c === 'MutableIterable' || $c === 'ImmutableIterable') { $op = one($mut ? ['push', 'pop', 'keyAt', 'valueAt', 'setKeyAt', 'setValueAt', 'indexOfKey', 'containsKey', 'count'] : ['keyAt', 'valueAt', 'indexOfKey', 'count']); $a = match ($op) { 'push' => [$new(), 1], 'keyAt', 'valueAt' => [farof($s)], 'setKeyAt', 'setValueAt' => [farof($s), $new()], 'indexOfKey', 'containsKey' => [chance(50) ? $key() : -77], default => [] }; }
        else { $op = one(['[]set', '[]unset', 'get', 'containsKey', 'count', '[]isset']); $a = match ($op) { '[]set' => [chance(50) ? $key() : $new(), r(0, 9)], 'get' => [$key(), 'none'], '[]unset', 'containsKey', '[]isset' => [chance(60) ? $key() : $new()], default => [] }; }
        if ($k === 'heap') heapcall($h, $op, $a, []); else call($h, $op, $a, []);
    }
    if ($camp === 'C12') { $z = copyof($h); if ($z) drop($z); }
    T::emit(['op' => 'outside', 'o' => $h], [$h]); drop($h);
}
