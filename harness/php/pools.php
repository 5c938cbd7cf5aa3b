<?php
require __DIR__ . '/ops.php';

/** how many: one of these, or about as many as the trace is about */
function sz(array $small): int { return T::$large ? max(0, T::$large + r(-1, 1)) : (chance(12) ? r(0, 72) : one($small)); }
final class Obj { public $p = 1; }
final class Obj2 { }

/** objects that stay the same for a whole run */
function anon1(): object { return new class { }; }
function anon2(): object { return new class { }; }
function fixed(): array {
    static $f = null;
    return $f ??= ['o1' => new Obj, 'o2' => new Obj, 'p1' => new Obj2, 'std' => new stdClass, 'enum' => Teds\EmptySet::INSTANCE, 'res' => fopen('php://memory', 'r'), 'clo' => static fn() => 1, 'an2' => anon2(), 'an1' => anon1(), 'an3' => anon2()];
}
/** what to return if there is nothing: often something with a reference count of its own */
function dflt() { return match (r(0, 5)) { 0 => null, 1 => 'd', 2 => 7, 3 => str_repeat('d', r(2, 4)), 4 => [r(0, 9), 'x'], 5 => fixed()['o1'] }; }
/** a string that is nearly s */
function nearly(string $s): string {
    $n = strlen($s); $i = $n ? r(0, $n - 1) : 0; $b = chr(one([0, 1, 31, 48, 97, 98, 127, 128, 254, 255]));
    switch (r(0, 7)) {
        case 0: return $s . $b;
        case 1: return substr($s, 0, $i);
        case 2: case 3: if ($n) $s[$i] = $b; return $s;
        case 4: if ($n) $s[$n - 1] = $b; return $s;
        case 5: return $b . $s;
        case 6: return substr($s, 0, $i) . "\0" . substr($s, $i);
        default: return substr($s, 0, $i) . "\0" . one(['a', 'b', "\xff", "\0", '']);
    }
}
/** an array that is nearly a */
function nearlyarr(array $a): array {
    $n = count($a); $v = one([0, 1, 1.0, true, null, '1', 'a', [], [1], -1, 2, '']); if (!$n) return chance(50) ? [$v] : [one(['a', 5, -5, '']) => $v];
    $k = one(array_keys($a));
    switch (r(0, 9)) {
        case 0: $a[] = $v; return $a;
        case 1: unset($a[$k]); return $a;
        case 2: case 3: $a[$k] = is_array($a[$k]) && chance(60) ? nearlyarr($a[$k]) : (is_string($a[$k]) ? nearly($a[$k]) : $v); return $a;
        case 4: return array_reverse($a, true);
        case 5: $x = $a[$k]; unset($a[$k]); $a[$k] = $x; return $a;
        case 6: $x = $a[$k]; unset($a[$k]); $a[is_string($k) ? nearly($k) : $k + 1] = $x; return $a;
        case 7: $r = []; foreach ($a as $i => $x) $r[$i === $k ? (is_string($k) ? nearly($k) : one([$k + 1, -$k, "k$k"])) : $i] = $x; return $r;
        case 8: $a['x'] = 1; $a[1 << 20] = 2; unset($a['x'], $a[1 << 20]); return $a; // equal to it, but not packed
        default: return [$a];
    }
}
/** strings that are hard to tell apart */
function alike(int $n): array {
    $u = [one(['a', '', "a\0b", 'abcdefg', 'abcdefgh', "k\0", str_repeat('z', 8), str_repeat('y', 250), '10', "\x80"])];
    while (count($u) < $n) $u[] = nearly(one($u));
    return array_values(array_unique($u));
}
function anyval(int $depth = 1) {
    switch (r(0, 15)) {
        case 0: return null;
        case 1: return chance(50);
        case 2: case 3: return r(-3, 9);
        case 4: return one([PHP_INT_MAX, PHP_INT_MIN, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, 255, 256, -129]);
        case 5: return one([0.0, -0.0, 1.0, 1.5, -2.5, NAN, INF, -INF, 1e300, 9007199254740992.0, 0.1]);
        case 6: case 7: return one(['', 'a', 'b', 'ab', '0', '1', '1.0', "\0", "\xff", 'A']);
        case 8: return str_repeat(chr(r(97, 102)), r(2, 6)); // a freshly allocated string
        case 9: return fixed()[one(['o1', 'o2', 'p1', 'std'])];
        case 10: if ($depth <= 0) return []; $x = []; for ($i = r(0, 3); $i > 0; $i--) $x[] = anyval($depth - 1); return $x;
        case 11: if ($depth <= 0) return ['k' => 1]; return [one(['k', 'j', 5, -1]) => anyval($depth - 1), one(['z', 7]) => 1];
        default: return r(0, 4);
    }
}
function edgeint(int $w) { // ints at the boundaries of the w-th width
    return match ($w) { 0 => one([0, 1, -1, 127, -128, 5, 100]), 1 => one([128, -129, 32767, -32768, 255, 256]), 2 => one([32768, -32769, 2147483647, -2147483648, 65535, 65536]),
        default => one([2147483648, -2147483649, 4294967295, 4294967296, PHP_INT_MAX, PHP_INT_MIN, PHP_INT_MAX - 1]) };
}
/** a value for class c; mode narrows what is drawn in one trace */
function valfor(string $c, int $mode) {
    if ($c === 'IntVector') return edgeint(min($mode, r(0, 3)));
    if ($c === 'BitVector') return chance(50);
    if ($c === 'LowMemoryVector') {
        switch ($mode) {
            case 0: return chance(50);
            case 1: return one([true, false, null]);
            case 2: return edgeint(0); case 3: return edgeint(r(0, 1)); case 4: return edgeint(r(0, 2)); case 5: return edgeint(r(0, 3));
            case 6: return one([0.0, -0.0, 1.5, -1.5, NAN, INF, 1e308, 3.0]);
            case 7: return anyval();
            case 8: return one([true, false, null, 1, 300, 1.5, 'x']);
        }
    }
    return anyval();
}
function modes(string $c): int { return $c === 'IntVector' ? r(0, 3) : ($c === 'LowMemoryVector' ? r(0, 8) : 0); }
function badfor(string $c) {
    if ($c === 'IntVector') return one([null, true, 1.0, '1', [], fixed()['o1']]);
    return one([null, 1, 0, 1.0, '1', [], fixed()['o1']]);
}
/** a Traversable over values, of a random kind; keys may be anything */
function traversable(array $vals) {
    return match (r(0, 4)) {
        0 => new ArrayIterator($vals),
        1 => (function () use ($vals) { foreach ($vals as $v) yield $v; })(),
        2 => (function () use ($vals) { foreach ($vals as $i => $v) yield ["k$i"] => $v; })(),
        3 => new ArrayObject($vals),
        4 => new Teds\ImmutableSequence($vals),
    };
}
/** an array holding the values, packed or not, possibly with holes and references */
function arrayof(array $vals): array {
    switch (r(0, 4)) {
        case 0: return $vals;
        case 1: $x = []; foreach ($vals as $i => $v) $x["k$i"] = $v; return $x;
        case 2: $x = [0, ...$vals]; unset($x[0]); return $x;
        case 3: $x = $vals; foreach ($x as $k => &$ref) { $keep[] = &$ref; } unset($ref); return $x;
        default: $x = []; foreach ($vals as $i => $v) $x[$i * 3 - 5] = $v; return $x;
    }
}

/** arrays whose elements are references that are changed once a collection has been made from them */
final class Held {
    private static array $r = [];
    public static function of(array $a): array {
        $k = r(0, 3); $j = $k === 0 && $a ? one([0, count($a) - 1, r(0, count($a) - 1)]) : 0; $n = 0;
        foreach ($a as $i => $_) if (match ($k) { 0 => $n++ === $j, 1 => chance(50), default => true }) self::$r[] = &$a[$i];
        return $a;
    }
    /** pairs, or their keys and values, that are references */
    public static function pairs(array $ps): array { $r = []; foreach ($ps as $p) $r[] = chance(70) ? self::of($p) : $p; return chance(50) ? self::of($r) : $r; }
    public static function change(): void { foreach (self::$r as &$x) $x = 'changed later'; unset($x); self::$r = []; }
}
/** something that is easily mistaken for v */
function alias($v) {
    if (is_int($v)) switch (r(0, 6)) {
        case 0: case 1: case 2: $w = 1 << one([7, 8, 15, 16, 31, 32, 32, 32, 33, 63]); $x = $v + $w * one([1, 1, -1, 3]); return is_int($x) ? $x : $v ^ PHP_INT_MIN;
        case 3: return (float)$v; case 4: return (string)$v; case 5: return $v === 0 ? one([null, false, '', -0.0, 0.0]) : ($v === 1 ? true : -$v); default: return $v ^ 1;
    }
    if (is_float($v)) return match (r(0, 4)) { 0 => unpack('q', pack('d', $v))[1], 1 => is_finite($v) && abs($v) < 9e18 ? (int)$v : PHP_INT_MIN, 2 => -$v, 3 => unpack('d', pack('q', unpack('q', pack('d', $v))[1] ^ 1))[1], default => (string)$v };
    if (is_string($v)) return match (r(0, 5)) { 0 => $v . "\0", 1 => strtoupper($v), 2 => substr($v, 0, -1), 3 => is_numeric($v) ? $v + 0 : " $v", 4 => strrev($v), default => $v . 'x' };
    if (is_bool($v)) return one($v ? [1, '1', 1.0, [true]] : [0, '', null, 0.0, []]);
    if ($v === null) return one([false, 0, '', [], 0.0]);
    if (is_array($v)) return match (r(0, 3)) { 0 => array_reverse($v, true), 1 => [...array_values($v), null], 2 => array_values($v), default => array_slice($v, 1) };
    return one([null, 0, 1, true]);
}
