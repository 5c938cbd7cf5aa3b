<?php
// Campaigns over collections of every class.
const MUTABLE = ['Vector', 'Deque', 'IntVector', 'BitVector', 'LowMemoryVector', 'MutableIterable', 'StrictHashMap', 'StrictHashSet', 'StrictTreeMap', 'StrictTreeSet', 'StrictSortedVectorMap', 'StrictSortedVectorSet', 'SortedIntVectorSet', 'StrictMinHeap', 'StrictMaxHeap'];
const IMMUTABLE = ['ImmutableSequence', 'ImmutableIterable', 'CachedIterable', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet'];
/** a collection of class c with about n entries, and what is needed to go on with it */
function mkany(string $c, ?int $n = null): array {
    $n ??= sz([0, 0, 1, 2, 3, 4, 5, 8, 9, 16, 17]); $mode = modes($c); $u = null;
    if (KIND[$c] === 'seq') $h = newseq($c, $mode, $n);
    elseif (in_array($c, ['MutableIterable', 'ImmutableIterable', 'CachedIterable'])) { $p = []; for ($i = 0; $i < $n; $i++) $p[] = [anyval(), anyval()]; $h = pairsfrom($c, $p, false); }
    else {
        if ($c === 'ImmutableSortedStringSet') { $u = []; for ($i = 0; $i < 2 * $n + 3; $i++) $u[] = chance(80) ? rndstr() : str_repeat(chr(r(97, 100)), one([252, 253, 254, 255, 256, 300])); }
        elseif ($c === 'SortedIntVectorSet' || $c === 'ImmutableSortedIntSet') { $u = []; $w = r(0, 3); for ($i = 0; $i < 2 * $n + 3; $i++) $u[] = chance(30) ? edgeint(r(0, $w)) : r(-2 * $n, 2 * $n); }
        else $u = universe(one([0, 1, 2, 3, 4, 5, 6]), 2 * $n + 4);
        $v = $u; if (KIND[$c] !== 'heap') $v = array_values(array_filter($u, fn($k) => !(is_float($k) && $k == 0)));
        shuffle_($v); $v = array_slice($v, 0, $n);
        $h = KIND[$c] === 'kv' ? pairsfrom($c, array_map(fn($k) => [$k, r(0, 9)], $v), true) : setfrom($c, $v);
    }
    return [$h, $u, $mode];
}
function anystep(int $h, ?array $u, int $mode, int $g = 0, ?array $ob = null): void {
    $c = short(T::$objs[$h]);
    switch (KIND[$c]) {
        case 'seq': if ($c === 'BitVector' && chance(30)) bitstep($h, $ob); else seqstep($c, $h, $mode, $g, true, $ob); break;
        case 'set': setstep($c, $h, $u, $g, $ob); break;
        case 'heap': $op = pick(['add' => 12, 'extract' => 7, 'next' => 3, 'top' => 2, 'count' => 1, 'isEmpty' => 1, 'contains' => 1, 'values' => 1, 'clear' => $g > 0 ? 0 : 1]); heapcall($h, $op, in_array($op, ['add', 'contains']) ? [one($u)] : [], $ob); break;
        case 'kv': if (str_ends_with($c, 'Map')) mapstep($c, $h, $u, $g, $ob); else kvstep($c, $h, $g, $ob); break;
    }
}
function contentsof(object $o): array { return match (KIND[short($o)]) { 'seq' => $o->toArray(), 'set', 'heap' => $o->values(), 'kv' => $o->toPairs(), default => [] }; }
/** a copy of a collection, made in a random way */
function copyof(int $h): ?int {
    $o = T::$objs[$h]; $c = short($o); $cls = get_class($o); $how = one(['clone', 'clone', 'serialize', 'var_export', 'set_state', 'native']);
    if (!plain(contentsof($o))) $how = chance(70) ? 'clone' : 'set_state';
    if ($how === 'native' && !method_exists($cls, 'unserialize')) $how = 'serialize';
    if ($c === 'CachedIterable' && $how === 'clone') $how = 'set_state';
    if ($c === 'LowMemoryVector' && $how === 'var_export') $how = 'set_state'; // its exported form deliberately has no elements
    $e = ['op' => 'clone', 'o' => $h, 'how' => $how]; T::pend("copy $c $how"); $x = ''; $z = null;
    try {
        switch ($how) {
            case 'clone': $z = clone $o; break;
            case 'serialize': $z = unserialize(serialize($o)); break;
            case 'var_export': $z = eval('return ' . var_export($o, true) . ';'); break;
            case 'native': $z = $cls::unserialize($o->serialize()); break;
            case 'set_state': $z = $cls::__set_state(contentsof($o)); break;
        }
        if (!is_object($z) || get_class($z) !== $cls || $z === $o) $x = 'not a copy';
    } catch (\Throwable $t) { $x = get_class($t); unset($t); }
    $e['x'] = $x; $ob = [$h];
    if ($x === '') { $e['n'] = T::add($z); $ob[] = $e['n']; }
    T::emit($e, $ob);
    return $x === '' ? $e['n'] : null;
}
function drop(int $h): void { unset(T::$objs[$h]); T::emit(['op' => 'drop', 'o' => $h]); }
function camp_C12(): void {
    if (chance(2)) { // strings whose lengths take two or four bytes
        $h = setfrom('ImmutableSortedStringSet', ['a', str_repeat('q', one([65534, 65535, 65536, 70001])), ...(chance(50) ? ['r'] : []), ...(chance(50) ? [str_repeat('b', one([252, 253, 255, 256, 65533]))] : [])]);
        for ($k = 3; $k > 0; $k--) { $n = copyof($h); if ($n) drop($n); }
        drop($h);
    }
    $c = one([...MUTABLE, ...IMMUTABLE]);
    [$h, $u, $mode] = mkany($c); $hs = [$h]; $its = [];
    $g = r(-1, 1);
    for ($i = r(5, 30); $i > 0; $i--) anystep($h, $u, $mode, $g, $i % 4 ? [] : [$h]);
    for ($k = r(1, 4); $k > 0; $k--) {
        if (in_array($c, IT_CLASSES) && chance(40)) $its[] = itnew(one($hs));
        if (count($hs) < 3) { $n = copyof(one($hs)); if ($n) $hs[] = $n; }
        elseif (chance(50)) { $j = r(0, 2); drop($hs[$j]); unset($hs[$j]); $hs = array_values($hs); foreach ($its as $i) itdrop($i); $its = []; }
        for ($i = r(3, 15); $i > 0; $i--) {
            anystep(one($hs), $u, $mode, r(-1, 1), $hs);   // every copy is looked at after every step
            if ($its && chance(30)) itstep(one($its));
        }
    }
    if (str_starts_with($c, 'StrictTree')) foreach ($hs as $x) shape($x);
}
