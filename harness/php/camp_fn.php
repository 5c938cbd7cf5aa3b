<?php
class Aa { } class AaB { } class aZ { } class Ab { public $x; } // names that are prefixes of each other, or differ in case
/** the same value in another memory layout: fresh strings, packed or hash arrays, with holes or references */
function relayout($x, int $depth = 4) {
    if (is_string($x)) return strlen($x) > 1 ? substr($x . 'zz', 0, strlen($x)) : $x;
    if (!is_array($x)) return $x;
    $r = [];
    switch (r(0, 5)) {
        case 0: foreach ($x as $k => $v) $r[$k] = relayout($v); return $r;
        case 1: $r['tmp'] = 1; foreach ($x as $k => $v) $r[$k] = relayout($v); unset($r['tmp']); return $r;            // a hash with a hole at the front
        case 2: foreach ($x as $k => $v) { $r[$k] = relayout($v); } $r['tail'] = 1; unset($r['tail']); return $r;     // a hash
        case 3: foreach ($x as $k => $v) { $r[$k] = relayout($v); } if (array_is_list($r)) { $r[] = 1; $r[] = 2; array_pop($r); array_pop($r); } return $r; // packed, roomy
        case 4: foreach ($x as $k => $v) { $r[$k] = relayout($v); } foreach ($r as $k => &$ref) { T::$keep[] = &$ref; } unset($ref); return $r; // elements are references
        default: $i = 0; foreach ($x as $k => $v) { $r[$k] = relayout($v); if ($i++ % 2) { $r["h$i"] = 1; unset($r["h$i"]); } } return $r; // a hash with holes inside
    }
}
function nans(): array { return [NAN, -NAN, unpack('E', hex2bin('7ff8000000000001'))[1], unpack('E', hex2bin('fff0000000000001'))[1], INF - INF]; }
function res(int $i) { static $rs = []; return $rs[$i] ??= fopen('php://memory', 'r'); }
// their class names are the same up to a NUL byte
function ob(int $i): object { static $os = []; return $os[$i] ??= match ($i % 10) { 7 => anon1(), 8 => anon2(), 9 => fn() => 1, 0 => new Aa, 1 => new AaB, 2 => new Ab, 3 => new aZ, 4 => new stdClass, 5 => new Obj, 6 => new ArrayObject }; }
function rndfloat(): float { return match (r(0, 6)) { 0 => unpack('E', randbytes(8))[1], 1 => (float)edgeint(r(0, 3)), 2 => edgeint(3) + one([-1.0, 1.0, 1024.0, -1024.0, 2048.0]), 3 => r(-40, 40) / 4, 4 => one([0.0, -0.0, INF, -INF, 5e-324, -5e-324, 1.7976931348623157e308, 2.2250738585072014e-308]), 5 => one(nans()), default => (float)((1 << r(50, 62)) + r(-2, 2)) }; }
function rndint(): int { return match (r(0, 4)) { 0 => r(-3, 3), 1 => edgeint(r(0, 3)), 2 => (1 << r(50, 62)) + r(-2, 2), 3 => -(1 << r(50, 62)) + r(-2, 2), default => (r(0, 0xffffffff) << 32) | r(0, 0xffffffff) }; }
function rndstr(): string { static $last = ''; if (chance(15)) return $last = nearly($last); return $last = match (r(0, 4)) { 0 => randbytes(r(0, 3)), 1 => one(['', 'a', 'A', 'ab', 'abc', "a\0", "a\0b", "\xff", "\x7f", '0', '00', '0.0', '1e1', '10', ' 1', '1 ']), 2 => (string)rndint(), 3 => str_repeat('a', r(0, 9)) . one(['', 'b', "\0", "\x80"]), default => substr('prefixprefixprefix', 0, r(0, 18)) . one(['', 'a', "\xfe"]) }; }
function rndkey() { return match (r(0, 3)) { 0 => r(-2, 4), 1 => rndint(), 2 => rndstr(), default => r(0, 3) }; }
function rndarr(int $d): array {
    $a = []; $n = pick([0 => 2, 1 => 4, 2 => 4, 3 => 3, 5 => 1, 9 => 1]);
    $list = chance(50);
    for ($i = 0; $i < $n; $i++) { $v = rndval($d - 1); if ($list) $a[] = $v; else $a[rndkey()] = $v; }
    return $a;
}
function rndval(int $d) {
    switch (r(0, 12)) {
        case 0: return null; case 1: return chance(50);
        case 2: case 3: return rndint(); case 4: case 5: return rndfloat(); case 6: case 7: return rndstr();
        case 8: return ob(r(0, 29)); case 9: return chance(40) ? res(r(0, 3)) : r(0, 3);
        default: return $d <= 0 ? one([[], 0, '']) : rndarr($d);
    }
}
/** a family of values that are close to each other */
function family(int $n): array {
    $r = [];
    switch (r(0, 8)) {
        case 0: for ($i = 0; $i < $n; $i++) $r[] = rndval(2); break;
        case 1: for ($i = 0; $i < $n; $i++) $r[] = chance(50) ? rndint() : rndfloat(); break;
        case 2: $b = 1 << r(52, 62); if (chance(50)) $b = -$b; for ($i = 0; $i < $n; $i++) { $x = $b + r(-3, 3) * one([1, 1, 512, 1024]); $r[] = chance(50) ? $x : (float)$x; } break;
        case 3: for ($i = 0; $i < $n; $i++) $r[] = rndstr(); break;
        case 4: for ($i = 0; $i < $n; $i++) $r[] = rndarr(1); break;
        case 5: $b = rndarr(2); for ($i = 0; $i < $n; $i++) $r[] = mutate($b, 2); break;
        case 6: for ($i = 0; $i < $n; $i++) $r[] = chance(80) ? ob(r(0, 20)) : res(r(0, 3)); break;
        case 7: $r = universe(one([3, 4, 6]), 10); shuffle_($r); $r = array_slice($r, 0, $n); break;
        default: $d = r(1, 12); for ($i = 0; $i < $n; $i++) { $x = one([1, 1.0, '1', true, NAN, 0.0, -0.0, [], null]); for ($k = r(max(0, $d - 1), $d); $k > 0; $k--) $x = chance(50) ? [$x] : ['k' => $x]; $r[] = $x; } break;
    }
    $m = count($r); for ($i = 0; $i < 4; $i++) $r[] = relayout($r[r(0, $m - 1)]);
    return $r;
}
function shuffle_(array &$a): void { for ($i = count($a) - 1; $i > 0; $i--) { $j = r(0, $i); [$a[$i], $a[$j]] = [$a[$j], $a[$i]]; } }
/** a copy of an array that differs in at most one place */
function mutate(array $a, int $d): array {
    $a = relayout($a); if (!$a || chance(15)) { if (chance(50)) $a['added'] = 0; return $a; }
    $k = one(array_keys($a));
    if ($d > 0 && is_array($a[$k]) && chance(60)) { $a[$k] = mutate($a[$k], $d - 1); return $a; }
    switch (r(0, 4)) {
        case 0: $a[$k] = rndval(0); break;
        case 1: $v = $a[$k]; unset($a[$k]); $a[rndkey()] = $v; break;  // another key, at the end
        case 2: $v = $a[$k]; $a[$k] = is_int($v) && abs($v) < 1 << 53 ? (float)$v : (is_string($v) ? $v . 'x' : (is_float($v) ? -$v : [$v])); break;
        case 3: $r = []; foreach (array_reverse(array_keys($a)) as $q) $r[$q] = $a[$q]; $a = $r; break;  // another order
    }
    return $a;
}
function matrix(string $op, array $vs, callable $f): void {
    T::pend($op); $m = [];
    foreach ($vs as $a) { $row = []; foreach ($vs as $b) $row[] = $f($a, $b); $m[] = $row; }
    T::emit(['op' => $op, 'a' => T::vs($vs), 'm' => $m]);
}
function camp_C09(): void {
    $vs = family(10);
    matrix('cmpmat', $vs, fn($a, $b) => Teds\stable_compare($a, $b) <=> 0);
    if (chance(50)) { // every sorted container follows the same order
        $ds = []; foreach ($vs as $v) { foreach ($ds as $w) if (Teds\stable_compare($v, $w) === 0 && T::v($v) !== T::v($w)) continue 2; $ds[] = $v; } $vs = $ds; // which of several equal keys stays is not specified
        $c = one(['StrictTreeSet', 'StrictSortedVectorSet', 'StrictTreeMap', 'StrictSortedVectorMap', 'StrictMinHeap', 'StrictMaxHeap']);
        if (str_ends_with($c, 'Map')) pairsfrom($c, array_map(fn($v) => [$v, 1], $vs), false);
        else { $h = setfrom($c, $vs); if (KIND[$c] === 'heap') for ($i = count($vs); $i > 0; $i--) heapcall($h, 'extract', []); }
    }
}
function camp_C10(): void {
    $vs = family(10);
    matrix('eqmat', $vs, fn($a, $b) => Teds\strict_equals($a, $b) ? 1 : 0);
    T::pend('strict_hash'); $hs = []; foreach ($vs as $v) $hs[] = Teds\strict_hash($v);
    T::emit(['op' => 'hashes', 'a' => T::vs($vs), 'm' => array_map(fn($h) => array_search($h, $hs, true), $hs)]);
    $k = r(0, 3); T::pend("unique_values $k");
    $again = array_merge($vs, array_map('relayout', $vs)); shuffle_($again);
    if (chance(35)) { $d = []; foreach ($again as $v) if (!in_array($v, $d, true)) $d[] = $v; $again = $d; if (chance(40)) $again = array_slice($again, 0, r(0, 3)); } // nothing to take away
    $u = match ($k) {
        0 => Teds\unique_values(chance(30) ? Held::of($again) : (chance(50) ? arrayof($again) : $again)), 1 => Teds\unique_values(traversable($again)),
        2 => (new Teds\StrictHashSet($again))->values(), 3 => Teds\StrictHashMap::fromPairs(array_map(fn($v) => [$v, 1], $again))->keys(),
    };
    Held::change();
    T::emit(['op' => 'uniq', 'a' => T::vs($again), 'm' => T::vs($u), 'keys' => array_is_list($u) ? 1 : 0, 'w' => $k]);
}

final class Src implements Iterator { // counts what is read from it
    public int $i = 0; public int $cur = 0; public int $nx = 0;
    public function __construct(public array $v, public int $fail, public string $how) { }
    private function at(string $m): void { if ($this->how === $m && $this->i + 1 === $this->fail) throw new DomainException('source'); }
    public function rewind(): void { $this->i = 0; $this->at('rewind'); }
    public function valid(): bool { $this->at('valid'); return $this->i < count($this->v); }
    public function current(): mixed { $this->at('current'); $this->cur++; return $this->v[$this->i]; }
    public function key(): mixed { return [$this->i]; }
    public function next(): void { $this->nx++; $this->i++; $this->at('next'); }
}
/** an iterable over values: [iterable, fails at element (0: never), function giving the number of elements read] */
function source(array $vs): array {
    $n = count($vs);
    switch (r(0, 7)) {
        case 0: return [$vs, 0, fn() => -1];
        case 1: return [arrayof($vs), 0, fn() => -1];
        case 2: return [traversable($vs), 0, fn() => -1];
        case 3: $c = one(['Vector', 'Deque', 'ImmutableSequence', 'LowMemoryVector']); $cls = "Teds\\$c"; return [new $cls($vs), 0, fn() => -1];
        case 4: $o = Teds\MutableIterable::fromPairs(array_map(fn($v) => [[1], $v], $vs)); return [$o, 0, fn() => -1];
        case 5: $fail = chance(30) ? r(1, $n + 1) : 0; $got = 0;
            $g = (function () use ($vs, $fail, &$got) { foreach ($vs as $i => $v) { if ($i + 1 === $fail) throw new DomainException('source'); $got++; yield $v; } if (count($vs) + 1 === $fail) throw new DomainException('source'); })();
            return [$g, $fail, function () use (&$got) { return $got; }];
        default: $fail = chance(30) ? r(1, $n + 1) : 0; $how = one(['valid', 'current', 'next', 'rewind']);
            if ($fail === 1 && $how === 'next') $how = 'rewind'; if ($fail > 1 && $how === 'rewind') $how = 'next';
            if ($fail === $n + 1 && $how === 'current') $how = 'valid';
            $s = new Src($vs, $fail, $how); return [$s, $fail, fn() => $s->cur, fn() => $s->nx];
    }
}
function camp_C18(): void {
    $u = []; for ($i = r(1, 6); $i > 0; $i--) $u[] = anyval(); if (chance(50)) array_push($u, null, 0, false, 1, 'x');
    $vs = []; for ($i = sz([0, 1, 2, 3, 4, 8, 9, 20]); $i > 0; $i--) $vs[] = chance(20) ? anyval() : one($u);
    $f = one(['any', 'all', 'none', 'find', 'fold', 'includes_value', 'any', 'all', 'none']);
    $s = source($vs); [$it, $fail, $got] = $s;
    $log = []; $p = one([5, 50, 95]); $t = chance(25) ? r(1, count($vs) + 1) : 0;
    $cb = function (...$a) use (&$log, $p, $t, &$it) {
        $i = count($log); $log[] = ['a' => T::vs($a), 'x' => '', 'r' => 1];
        if (is_array($it) && chance(20)) { if (chance(50)) $it[] = 1; else { foreach ($it as $k => $_) { unset($it[$k]); break; } } } // the caller's variable, not the argument
        if ($i + 1 === $t) { $log[$i]['x'] = 'LengthException'; throw new LengthException('cb'); }
        $r = chance($p) ? one([true, 1, 'y', [0], 0.5, fixed()['o1'], str_repeat('r', 3)]) : one([false, null, 0, '', '0', [], 0.0]);
        if (chance(10)) $r = [$a];
        $log[$i]['r'] = T::v($r); return $r;
    };
    $use = $f === 'find' || $f === 'fold' || ($f !== 'includes_value' && chance(70));
    $arg = match ($f) { 'includes_value' => chance(60) && $vs ? (chance(70) ? one($vs) : alias(one($vs))) : one($u), 'find' => dflt(), 'fold' => anyval(), default => null };
    T::pend("function $f"); $x = ''; $r = null; $fn = "Teds\\$f"; $vi = T::vs($vs);
    try {
        $r = match (true) { $f === 'find' => $arg === null ? $fn($it, $cb) : $fn($it, $cb, $arg), $f === 'fold' => $fn($it, $cb, $arg), $f === 'includes_value' => $fn($it, $arg), default => $use ? $fn($it, $cb) : (chance(50) ? $fn($it) : $fn($it, null)) };
    } catch (\Throwable $e) { $x = get_class($e); unset($e); }
    T::emit(['op' => 'fn', 'f' => $f, 's' => $vi, 'fail' => $fail, 'use' => $use ? 1 : 0, 'a' => [T::v($arg)], 'cb' => $log, 'got' => $got(), 'nx' => isset($s[3]) ? $s[3]() : -1, 'x' => $x, 'r' => T::v($r)]);
}
/** a number of hundredths, written as an int, a float or a numeric string */
function written(int $n, bool $key) {
    switch (r(0, 6)) {
        case 0: if (!$key) return $n / 100; // no break
        case 1: if ($n % 100 === 0) return intdiv($n, 100); // no break
        case 2: return sprintf('%.2f', $n / 100);
        case 3: return sprintf('%.3f', $n / 100);
        case 4: return sprintf('%.6e', $n / 100);
        case 5: return ' ' . $n / 100;
        default: return $n < 0 ? (string)($n / 100) : '0' . $n / 100;
    }
}
/** binary_search without a comparer, in keys or values that are numbers in different notations: the order is that of the numbers */
function numsearch(): void {
    $byKey = chance(50); $n = sz([0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 40]); $step = one([1, 10, 50, 100]); $ns = [];
    for ($i = 0; $i < $n + 3; $i++) $ns[$k = r(-3 * $n - 3, 3 * $n + 3) * $step] = $k;
    sort($ns); $a = []; $of = [];
    foreach ($ns as $i => $x) if (count($of) < $n) { $w = written($x, $byKey); if ($byKey) $a[$w] = anyval(); elseif (chance(50)) $a[] = $w; else $a["k$i"] = $w; $of[] = $x; }
    $s = []; foreach ($a as $k => $v) $s[] = [T::v($k), T::v($v)];
    foreach (range(1, 4) as $_) {
        $x = one($ns) + (chance(30) ? one([-1, 1]) * $step : 0); $t = written($x, false); T::pend('binary_search');
        $r = Teds\binary_search($a, $t, null, $byKey);
        T::emit(['op' => 'nsearch', 's' => $s, 'n' => $of, 'a' => [$x], 'x' => '', 'm' => count($r) === 3 ? [T::v($r['found'] ?? 'missing'), T::v($r['key']), T::v($r['value'])] : []]);
    }
}
function camp_C19(): void {
    if (chance(25)) {
        $a = chance(50) ? rndarr(1) : relayout(rndarr(1)); if (chance(30)) $a = arrayof(array_values($a));
        $e = []; foreach ($a as $v) $e[] = T::v($v);
        foreach (['array_value_first', 'array_value_last'] as $f) { T::pend($f); $fn = "Teds\\$f"; T::emit(['op' => 'edge', 'f' => $f, 's' => $e, 'r' => T::v($fn($a))]); }
        $b = $a; T::emit(['op' => 'same', 's' => [1], 'r' => T::v(Teds\is_same_array_handle($a, $b))]);
        $b['added'] = 1; T::emit(['op' => 'same', 's' => [0], 'r' => T::v(Teds\is_same_array_handle($a, $b))]);
        $c = array_merge([], $b); $c = array_combine(array_keys($b), array_values($b)); T::emit(['op' => 'same', 's' => [0], 'r' => T::v(Teds\is_same_array_handle($c, $b))]);
        return;
    }
    if (chance(20)) { numsearch(); return; }
    // an array sorted by value or key, and targets in and around it
    $byKey = chance(40); $n = sz([0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 40]); $kind = $byKey ? r(0, 1) : r(0, 2);
    $pool = []; for ($i = 0; $i < $n + 3; $i++) $pool[] = match ($kind) { 0 => chance(20) ? edgeint(r(0, 3)) : r(-20, 3 * $n), 1 => str_repeat(chr(r(97, 102)), r(1, 3)) . chr(r(97, 122)), 2 => rndval(1) };
    $dir = 1; $cmp = 'default';
    if ($kind === 2 || chance(60)) { $cmp = one(['stable', 'scaled', 'thrower']); $dir = one([1, -1]); }
    usort($pool, fn($a, $b) => $dir * Teds\stable_compare($a, $b));
    $take = []; foreach ($pool as $i => $x) if (count($take) < $n && (chance(80) || $i > 2)) $take[] = $x;
    $a = []; $i = 0;
    if ($byKey) { foreach ($take as $k) $a[$k] = anyval(); } else switch (r(0, 2)) { case 0: $a = $take; break; case 1: foreach ($take as $v) $a['k' . $i++] = $v; break; default: foreach ($take as $v) $a[one([1, -1]) * (1000 - $i++)] = $v; }
    switch (r(0, 4)) { // layout
        case 0: foreach (array_keys($a) as $k) if (chance(40)) unset($a[$k]); break;
        case 1: $a = relayout($a); break;
        case 2: $keep = []; foreach ($a as $k => &$ref) $keep[] = &$ref; unset($ref); break;
        case 3: for ($k = r(0, 3); $k > 0 && $a; $k--) if (chance(50)) array_pop($a); else unset($a[array_key_first($a)]); break;
    }
    $s = []; foreach ($a as $k => $v) $s[] = [T::v($k), T::v($v)];
    foreach (range(1, 4) as $_) {
        $target = $kind === 1 && $cmp === 'default' ? one($pool) : (chance(70) ? one($pool) : match ($kind) { 0 => chance(50) ? r(-25, 3 * $n + 5) : edgeint(r(0, 3)), 1 => str_repeat(chr(r(97, 102)), r(1, 3)), 2 => rndval(1) });
        $log = []; $t = $cmp === 'thrower' ? r(1, 4) : 0; $big = one([1, 2, 1 << 31, 1 << 32, 1 << 40, PHP_INT_MAX]); $c = null;
        if ($cmp !== 'default') $c = function ($x, $y) use (&$log, $t, $dir, $cmp, $big) {
            $log[] = [T::v($x), T::v($y)]; if (count($log) === $t) throw new LengthException('cmp');
            $z = $dir * (Teds\stable_compare($x, $y) <=> 0); return $cmp === 'scaled' ? $z * $big : $z;
        };
        T::pend('binary_search'); $x = ''; $r = null;
        try { $r = Teds\binary_search($a, $target, $c, $byKey); } catch (\Throwable $e) { $x = get_class($e); unset($e); }
        T::emit(['op' => 'bsearch', 's' => $s, 'a' => [T::v($target)], 'dir' => $dir, 'bykey' => $byKey ? 1 : 0, 'usecb' => $c ? 1 : 0, 't' => $t, 'cb' => $log, 'x' => $x,
            'm' => is_array($r) && count($r) === 3 ? [T::v($r['found'] ?? 'missing'), T::v($r['key']), T::v($r['value'])] : []]);
    }
}
