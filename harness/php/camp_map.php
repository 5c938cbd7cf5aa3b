<?php
/** a universe of keys for one trace */
function universe(int $kind, int $size): array {
    if (T::$large) { $n = 3 * T::$large; T::$large = 0; $r = universe($kind === 1 ? 0 : $kind, $n); if (count($r) < $n) array_push($r, ...range(100, 100 + $n)); T::$large = intdiv($n, 3); return $r; }
    switch ($kind) {
        case 0: return range(-2, $size);
        case 1: $r = []; for ($i = 0; count($r) < $size && $i < 100000; $i++) if ((Teds\strict_hash($i) & 31) === 5) $r[] = $i; return $r; // same bucket while the table is small
        case 2: if (chance(45)) { $r = alike($size); while (count($r) < $size) $r[] = 'f' . count($r); return $r; } $r = []; for ($i = 0; $i < $size; $i++) $r[] = str_repeat(chr(97 + $i % 26), 1 + intdiv($i, 26)) . ($i % 3 ? '' : "\0"); return $r;
        case 3: return [null, false, true, 0, 1, -1, 0.0, -0.0, 1.0, 1.5, NAN, INF, -INF, '', '0', '1', 'a', "a\0", [], [1], ['1'], [1.0], ['k' => 1], [[]], fixed()['o1'], fixed()['o2'], fixed()['p1'], fixed()['std'], fixed()['an1'], fixed()['an2'], fixed()['an3'], PHP_INT_MAX, PHP_INT_MIN, 9223372036854775807.0, -9223372036854775808.0];
        case 4: return [1 << 53, (1 << 53) + 1, (1 << 53) - 1, 9007199254740992.0, 9007199254740993.0, 9007199254740994.0, -(1 << 53), -(1 << 53) - 1, -9007199254740992.0, PHP_INT_MAX, PHP_INT_MAX - 1, PHP_INT_MAX - 512, 9223372036854775807.0, 9223372036854774784.0, PHP_INT_MIN, PHP_INT_MIN + 1, -9223372036854775808.0, 0, 0.0, -0.0, 1, 1.0, 0.5, -0.5, -1, -1.0, NAN, INF, -INF, 5e-324, -5e-324];
        case 5: $r = []; for ($i = 0; $i < $size; $i++) $r[] = r(0, 2) ? r(-1000, 1000) : one([r(0, 50) / 4, 'x' . r(0, 60), r(0, 30)]); return $r;
        case 6: if (chance(45)) { $r = [one([[], [1], [1, 2, 3], ['a' => 1], ['a' => 1, 'b' => [2]], [[], [[]]], [5 => 'x', 3 => 'y']])]; for ($i = 0; $i < $size; $i++) { $r[] = nearlyarr(one($r)); } return array_values(Teds\unique_values($r)); } return [[], [0], [1], [0, 1], [1, 0], ['a' => 1], ['b' => 1], ['aa' => 1], [5 => 1], [-5 => 1], [[1]], [[2]], [1.0], [NAN], [null], ['1' => 2, 'x' => 1], ['x' => 1, '1' => 2], "a", "ab", "b", "", "\xff", "a\0"];
        default: return range(0, $size);
    }
}
/** serialize() keeps it exactly (objects become other objects, resources ints, and NANs lose their bits) */
function plain($x): bool { if (is_array($x)) { foreach ($x as $y) if (!plain($y)) return false; return true; } return is_float($x) ? !is_nan($x) : is_scalar($x) || $x === null; }
function pairsfrom(string $c, array $pairs, bool $distinctKeys): int { // pairs: list of [key, value]
    $cls = "Teds\\$c"; $m = [];
    foreach ($pairs as [$k, $v]) $m[] = [T::v($k), T::v($v)];
    T::pend("make $c");
    $gen = (function () use ($pairs) { foreach ($pairs as [$k, $v]) yield $k => $v; });
    $flat = []; foreach ($pairs as [$k, $v]) { $flat[] = $k; $flat[] = $v; }
    $w = r(0, 5); if ($w === 4 && !plain($flat)) $w = 3; // unserialize() would make other objects
    $src = chance(20) ? Held::pairs($pairs) : $pairs;
    switch ($w) {
        case 0: $o = $cls::fromPairs($src); break;
        case 1: $o = $c === 'CachedIterable' ? $cls::fromPairs($src) : $cls::fromPairs(new ArrayIterator($src)); break;
        case 2: $o = new $cls($gen()); break;
        case 3: $o = $cls::__set_state($src); break;
        case 4: $o = unserialize('O:' . strlen($cls) . ':"' . $cls . '":' . substr(serialize($flat), 2)); break;
        default: $a = []; $ok = true; foreach ($pairs as [$k, $v]) { if ((is_int($k) || (is_string($k) && (string)(int)$k !== $k)) && !array_key_exists($k, $a)) $a[$k] = $v; else $ok = false; } $o = $ok ? new $cls(chance(20) ? Held::of($a) : $a) : new $cls(new Teds\ImmutableIterable($gen())); break;
    }
    unset($src); Held::change();
    $h = T::add($o);
    T::emit(['op' => 'make', 'c' => $c, 'n' => $h, 'm' => $m, 'w' => $w], [$h]);
    return $h;
}
function setfrom(string $c, array $vals): int {
    $cls = "Teds\\$c";
    T::pend("make $c"); $src = chance(15) ? Held::of($vals) : $vals;
    switch (r(0, 3)) {
        case 0: $o = $vals || chance(50) ? new $cls($src) : new $cls(); break;
        case 1: $o = new $cls(arrayof($vals)); break;
        case 2: $o = new $cls(traversable($vals)); break;
        default: $o = $cls::__set_state($src); break;
    }
    unset($src); Held::change();
    $h = T::add($o);
    T::emit(['op' => 'make', 'c' => $c, 'n' => $h, 'm' => T::vs($vals)], [$h]);
    return $h;
}
const MAP_W = ['[]set' => 14, 'offsetSet' => 8, '[]unset' => 9, 'offsetUnset' => 5, 'get' => 4, 'getd' => 3, '[]get' => 4, 'offsetGet' => 2, 'offsetExists' => 2, '[]isset' => 3, '[]empty' => 1, '[]??' => 2, 'containsKey' => 5, 'contains' => 2, 'containsValue' => 1, 'keys' => 1, 'values' => 1, 'toPairs' => 1, 'jsonSerialize' => 1, '(array)' => 1, 'toArray' => 1, 'iterator_to_array' => 1, 'count' => 2, 'count()' => 1, 'isEmpty' => 1, 'foreach' => 1, 'foreachkv' => 2, 'clear' => 1, '[]push' => 1, '[]??=' => 3, '[]+=' => 2];
const SORTED_W = ['first' => 2, 'last' => 2, 'bottom' => 1, 'top' => 1, 'pop' => 5, 'popFront' => 4, 'shift' => 1];
const SORTEDMAP_W = ['firstKey' => 1, 'lastKey' => 1, 'bottomKey' => 1, 'topKey' => 1];
function mapstep(string $c, int $h, array $u, int $g, ?array $ob = null): void {
    static $i = 0;
    $w = MAP_W; if ($c !== 'StrictHashMap') $w += SORTED_W + SORTEDMAP_W;
    if ($g > 0) { $w['[]set'] *= 4; unset($w['clear']); } elseif ($g < 0) { $w['[]unset'] *= 4; if (isset($w['pop'])) { $w['pop'] *= 2; $w['popFront'] *= 2; } }
    if ($g > 1 || $g < -1) $w = array_intersect_key($w, ['[]set' => 1, 'offsetSet' => 1, '[]unset' => 1, 'offsetUnset' => 1, 'pop' => 1, 'popFront' => 1, 'containsKey' => 1, 'get' => 1]);
    $op = pick($w); $k = one($u);
    if (in_array($op, ['get', '[]get', 'offsetGet', 'offsetExists', '[]isset', '[]empty', 'containsKey', '[]unset', 'offsetUnset']) && chance(12)) $k = alias($k);
    $a = match ($op) {
        '[]set', 'offsetSet', '[]??=' => [$k, chance(70) ? ++$i % 1000 : one([null, 0, false, 'v', [1], dflt(), dflt()])],
        'getd', '[]??' => [$k, dflt()],
        'get', '[]get', 'offsetGet', 'offsetExists', '[]isset', '[]empty', 'containsKey', '[]unset', 'offsetUnset' => [$k],
        'contains', 'containsValue' => [count($vs = T::$objs[$h]->values()) && chance(60) ? (chance(65) ? one($vs) : alias(one($vs))) : (chance(50) ? one([null, 0, false, 'v', 'w', [1], [2], fixed()['o1']]) : r(0, 1000))],
        '[]push' => [1],
        default => [],
    };
    if ($op === 'getd') $op = 'get';
    if ($op === '[]+=') { plusat($h, $k, $ob); return; }
    call($h, $op, $a, $ob);
}
function mapinit(array $u, int $n): array { $p = []; for ($i = 0; $i < $n; $i++) $p[] = [one($u), r(0, 99)]; return $p; }
function maptrace(string $c, int $kinds): void {
    $u = universe($kinds, one([3, 6, 10, 20, 40]));
    $noneg0 = array_values(array_filter($u, fn($k) => !(is_float($k) && $k == 0)));
    $h = pairsfrom($c, mapinit($noneg0, sz([0, 0, 1, 2, 3, 7, 8, 9, 16, 17])), false);
    if (chance(75)) {
        $g = r(-1, 1);
        for ($i = r(15, 60); $i > 0; $i--) { if (chance(10)) $g = r(-1, 1); mapstep($c, $h, $u, $g); }
    } else {
        $u = universe(one([0, 1, 2, 5]), one([60, 150]));
        for ($k = 0; $k < 2; $k++) {
            for ($i = 0; $i < 120; $i++) mapstep($c, $h, $u, 2, $i % 10 ? [] : [$h]);
            for ($i = 0; $i < 100; $i++) mapstep($c, $h, $u, -2, $i % 10 ? [] : [$h]);
        }
        call($h, 'toPairs');
    }
}
const SET_W = ['add' => 14, 'remove' => 9, 'contains' => 5, 'values' => 1, 'foreach' => 1, 'foreachkv' => 2, 'jsonSerialize' => 1, '(array)' => 1, 'toArray' => 1, 'count' => 2, 'count()' => 1, 'isEmpty' => 1, 'clear' => 1];
function setstep(string $c, int $h, array $u, int $g, ?array $ob = null): void {
    $w = SET_W; $o = T::$objs[$h]; $n = count($o);
    if (in_array($c, ['StrictTreeSet', 'StrictSortedVectorSet'])) $w += SORTED_W;
    if (in_array($c, ['SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet'])) { $w += ['first' => 2, 'last' => 2, 'get' => 3, 'indexOf' => 4]; if ($c === 'SortedIntVectorSet') $w += ['pop' => 4, 'capacity' => 1]; }
    if ($g > 0) { $w['add'] *= 4; unset($w['clear']); } elseif ($g < 0) { $w['remove'] *= 4; }
    if ($g > 1 || $g < -1) $w = array_intersect_key($w, ['add' => 1, 'remove' => 1, 'contains' => 1, 'pop' => 1, 'popFront' => 1]);
    $op = pick($w); $k = one($u);
    if (in_array($op, ['add', 'remove', 'contains']) && chance(5)) $k = anyval();
    elseif (in_array($op, ['remove', 'contains', 'indexOf']) && chance(15)) $k = alias($k);
    $a = match ($op) { 'add', 'remove', 'contains' => [$k], 'indexOf' => [$c === 'ImmutableSortedStringSet' ? (string)(is_scalar($k) ? $k : 'q') : (is_int($k) ? $k : 3)], 'get' => [off($n)], default => [] };
    call($h, $op, $a, $ob);
}
function settrace(string $c, array $kinds): void {
    $u = universe(one($kinds), one([3, 6, 10, 20, 40]));
    $noneg0 = array_values(array_filter($u, fn($k) => !(is_float($k) && $k == 0)));
    $init = []; for ($i = sz([0, 0, 1, 2, 3, 8, 9, 16, 17]); $i > 0; $i--) $init[] = one($noneg0);
    $h = setfrom($c, $init);
    if (chance(75)) {
        $g = r(-1, 1);
        for ($i = r(15, 60); $i > 0; $i--) { if (chance(10)) $g = r(-1, 1); setstep($c, $h, $u, $g); }
    } else {
        $u = universe(one(array_intersect($kinds, [0, 1, 2, 5]) ? array_values(array_intersect($kinds, [0, 1, 2, 5])) : $kinds), one([60, 150]));
        for ($k = 0; $k < 2; $k++) {
            for ($i = 0; $i < 120; $i++) setstep($c, $h, $u, 2, $i % 10 ? [] : [$h]);
            for ($i = 0; $i < 100; $i++) setstep($c, $h, $u, -2, $i % 10 ? [] : [$h]);
        }
        call($h, 'values');
    }
}
/** a hash table that is exactly full, has few holes, and grows or is compacted */
function hashtight(string $c, bool $its): void {
    $cap = one([8, 8, 16, 32, 64, 64, 128, 256]); $set = $c === 'StrictHashSet'; $name = one([fn($i) => $i, fn($i) => "k$i", fn($i) => $i * 4096, fn($i) => $i % 3 ? $i : "s$i"]);
    $ks = array_map($name, range(0, $cap - 1 - (chance(20) ? 1 : 0)));
    $h = $set ? setfrom($c, $ks) : pairsfrom($c, array_map(fn($k) => [$k, r(0, 9)], $ks), true);
    $is = []; if ($its) for ($i = r(1, 3); $i > 0; $i--) { $is[] = $j = itnew($h); for ($k = one([0, 1, 2, r(0, $cap), $cap - 1, $cap]); $k > 0 && itstep($j, 'itnext')[0]; $k--); }
    $n = $cap;
    for ($round = r(1, 3); $round > 0; $round--) {
        for ($i = one([1, 1, 2, 2, 3, $cap >> 5, ($cap >> 5) + 1, $cap - 1]); $i > 0 && $ks; $i--) { $j = one([0, 0, 1 % count($ks), count($ks) - 1, r(0, count($ks) - 1)]); call($h, $set ? 'remove' : '[]unset', [$ks[$j]], chance(20) ? [$h] : []); array_splice($ks, $j, 1); if ($is && chance(30)) itstep(one($is)); }
        for ($i = r(1, 4); $i > 0; $i--) { $ks[] = $k = $name($n++); call($h, $set ? 'add' : '[]set', $set ? [$k] : [$k, r(0, 9)], chance(70) ? [$h] : []); if ($is && chance(40)) itstep(one($is)); }
        foreach ([0, 1, count($ks) - 1, r(0, count($ks) - 1)] as $j) if (isset($ks[$j])) call($h, $set ? 'contains' : 'containsKey', [$ks[$j]], []);
        if (chance(30)) { $d = dup($h); call($d, $set ? 'remove' : '[]unset', [$ks[0]], [$d, $h]); unset(T::$objs[$d]); T::emit(['op' => 'drop', 'o' => $d]); }
    }
    call($h, 'foreachkv');
    foreach ($is as $j) for ($k = 0; $k < 300 && itstep($j, 'itnext')[0]; $k++);
}
function camp_C04(): void { if (chance(7)) { hashtight(one(['StrictHashMap', 'StrictHashSet']), false); return; } if (chance(60)) maptrace('StrictHashMap', one([0, 1, 1, 2, 3, 5, 6])); else settrace('StrictHashSet', [0, 1, 2, 3, 5, 6]); }
function camp_C05(): void {
    if (chance(55)) maptrace(one(['StrictTreeMap', 'StrictSortedVectorMap']), one([0, 2, 3, 4, 5, 6])); else settrace(one(['StrictTreeSet', 'StrictSortedVectorSet']), [0, 2, 3, 4, 5, 6]);
}
/** int and string sets */
function camp_C06(): void {
    $c = one(['SortedIntVectorSet', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet']);
    if ($c === 'ImmutableSortedStringSet') {
        $u = chance(50) ? alike(one([4, 10, 30])) : one([['', 'a', 'b', 'ab', 'aa', "a\0", "\0", "\xff", 'ba', '1', '10', '2'], array_map(fn($i) => str_repeat(chr(97 + $i % 3), $i % 7) . chr(48 + $i % 10), range(0, 30)), array_map(fn($n) => str_repeat('z', $n), [0, 1, 2, 100, 252, 253, 254, 255, 256, 257, 300])]);
        if (chance(4)) { $m = one([1, 255, 4095, 32767, 65535]); $u = array_map(fn($n) => str_repeat('q', $n), array_values(array_unique([0, 1, 2, $m - 1, $m, $m + 1, $m + 2, $m + 3, 257, 32769]))); }
        if (T::$large) { for ($i = 2 * T::$large; $i > 0; $i--) $u[] = base_convert((string)r(0, 1 << 30), 10, 36); if (chance(30)) array_push($u, str_repeat('q', 65535), str_repeat('q', 65536)); }
    } else {
        $u = []; $w = r(0, 3); for ($i = T::$large ? 2 * T::$large : one([3, 8, 30]); $i > 0; $i--) $u[] = chance(50) ? edgeint(r(0, $w)) : r(-40 - T::$large, 40 + T::$large) * (1 << one([0, 0, 2, 8, 20]));
    }
    $init = []; for ($i = sz([0, 1, 2, 3, 8, 9, 16, 17, 40]); $i > 0; $i--) $init[] = one($u);
    $h = setfrom($c, $init);
    $g = r(-1, 1);
    for ($i = r(15, 50); $i > 0; $i--) { if (chance(10)) $g = r(-1, 1); setstep($c, $h, $u, $g); }
}
function camp_C08(): void {
    $c = one(['StrictMinHeap', 'StrictMaxHeap']); if (T::$large > 140 && chance(85)) T::$large = r(33, 140);
    $u = universe(one([0, 2, 3, 4, 5, 6]), one([5, 10, 40]));
    $init = []; for ($i = sz([0, 1, 2, 3, 5, 8, 15, 16, 17, 31]); $i > 0; $i--) $init[] = one($u);
    $h = setfrom($c, $init);
    $w = ['add' => 14, 'extract' => 9, 'next' => 4, 'top' => 4, 'current' => 1, 'key' => 1, 'valid' => 1, 'rewind' => 1, 'count' => 1, 'count()' => 1, 'isEmpty' => 1, 'contains' => 2, 'values' => 1, '(array)' => 1, 'clear' => 0];
    for ($k = r(1, 3); $k > 0; $k--) {
        $w['add'] = one([4, 14, 30]); $w['clear'] = chance(10) ? 1 : 0;
        for ($i = r(10, 40); $i > 0; $i--) { $op = pick($w); heapcall($h, $op, in_array($op, ['add', 'contains']) ? [one($u)] : []); }
    }
    if (chance(70)) while (count(T::$objs[$h]) > 0 && T::$objs[$h]->count() < 1000) heapcall($h, one(['extract', 'next']), [], T::$large && count(T::$objs[$h]) % 16 ? [] : null);
}
/** next() does not return what it removes; record it so that equal values can be told apart */
function heapcall(int $h, string $op, array $a, ?array $ob = null): void {
    $top = $op === 'next' && count(T::$objs[$h]) ? T::$objs[$h]->top() : null;
    if ($op === 'next') {
        $o = T::$objs[$h]; $e = ['op' => 'next', 'o' => $h]; T::pend('heap next'); $x = '';
        try { $o->next(); } catch (\Throwable $t) { $x = get_class($t); }
        T::emit($e + ['x' => $x, 'h' => T::v($top)], $ob ?? [$h]);
    } else call($h, $op, $a, $ob);
}
const KV_W = ['keyAt' => 4, 'valueAt' => 4, 'indexOfKey' => 3, 'indexOfValue' => 3, 'containsKey' => 2, 'containsValue' => 1, 'contains' => 2, 'keys' => 1, 'values' => 1, 'toPairs' => 1, 'jsonSerialize' => 1, '(array)' => 1, 'toArray' => 1, 'iterator_to_array' => 1, 'count' => 2, 'count()' => 1, 'isEmpty' => 1, 'foreach' => 1, 'foreachkv' => 2, 'clear' => 1];
const KVMUT_W = ['push' => 14, 'pop' => 9, 'setKeyAt' => 5, 'setValueAt' => 5, 'setSize' => 4, 'shrinkToFit' => 2, 'capacity' => 2];
function kvstep(string $c, int $h, int $g, ?array $ob = null): void {
    $o = T::$objs[$h]; $n = count($o); $w = KV_W;
    if ($c === 'MutableIterable') { $w += KVMUT_W; if ($g > 0) $w['push'] *= 4; if ($g < 0) $w['pop'] *= 3; }
    $op = pick($w);
    $a = match ($op) {
        'keyAt', 'valueAt' => [off($n)], 'setKeyAt', 'setValueAt' => [chance(70) ? inoff($n) : off($n), anyval()], 'push' => [anyval(), anyval()],
        'setSize' => [one([0, 1, $n, $n + 1, max(0, $n - 1), $n + 7, r(0, 40), -1])],
        'indexOfKey', 'containsKey' => [$n && chance(60) ? (chance(75) ? $o->keyAt(r(0, $n - 1)) : alias($o->keyAt(r(0, $n - 1)))) : anyval()], 'indexOfValue', 'containsValue', 'contains' => [$n && chance(60) ? (chance(75) ? $o->valueAt(r(0, $n - 1)) : alias($o->valueAt(r(0, $n - 1)))) : anyval()],
        default => [],
    };
    call($h, $op, $a, $ob);
}
function camp_C17(): void {
    $c = one(['MutableIterable', 'MutableIterable', 'ImmutableIterable', 'CachedIterable']);
    $p = []; for ($i = sz([0, 1, 2, 3, 4, 5, 8, 9, 17]); $i > 0; $i--) $p[] = [anyval(), anyval()];
    $h = pairsfrom($c, $p, false);
    $g = r(-1, 1);
    for ($i = r(15, 50); $i > 0; $i--) { if (chance(10)) $g = r(-1, 1); kvstep($c, $h, $g); }
}
