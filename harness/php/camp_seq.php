<?php
/** new sequence of class c with random initial contents */
function newseq(string $c, int $mode, ?int $n = null): int {
    $n ??= sz([0, 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17]);
    $vals = []; for ($i = 0; $i < $n; $i++) $vals[] = valfor($c, $mode);
    return seqfrom($c, $vals);
}
function seqfrom(string $c, array $vals): int {
    $cls = "Teds\\$c";
    T::pend("new $c");
    $src = chance(15) ? Held::of($vals) : $vals;
    $o = match (r(0, 3)) { 0 => $vals || chance(50) ? new $cls($src) : new $cls(), 1 => new $cls($src === $vals ? arrayof($vals) : $src), 2 => new $cls(traversable($vals)), 3 => $cls::__set_state($src) };
    unset($src); Held::change();
    $h = T::add($o);
    T::emit(['op' => 'make', 'c' => $c, 'n' => $h, 'm' => T::vs($vals)], [$h]);
    return $h;
}
function seqvals(string $c, int $mode, int $max = 4): array {
    $k = pick([0 => 1, 1 => 6, 2 => 3, 3 => 2, 5 => 1, 9 => 1]); if ($k > $max && chance(70)) $k = $max;
    $a = []; for ($i = 0; $i < $k; $i++) $a[] = valfor($c, $mode);
    return $a;
}
function someoffset(int $n) { // anything that can be written between the brackets
    if (chance(75)) return off($n);
    return match (r(0, 7)) { 0 => (float)r(-2, min($n, 9) + 1), 1 => one([0.5, -0.5, 1.9, -1.0, -1.5]), 2 => (string)off(min($n, 5)), 3 => chance(50), 4 => one(['', 'x', '1x', ' 1', '01', '+1', '-0', '1.0']), 5 => one([null, []]), 6 => fixed()['o1'], 7 => one(['0', '1', '-1']) };
}
const SEQ_MUT = ['push' => 14, 'pushFront' => 6, 'unshift' => 3, 'insert' => 10, 'pop' => 8, 'popFront' => 7, 'shift' => 3, 'set' => 8, '[]set' => 6, 'offsetSet' => 3, '[]push' => 4, '[]unset' => 5, 'offsetUnset' => 4, 'clear' => 1];
const SEQ_READ = ['get' => 6, '[]get' => 4, 'offsetGet' => 2, 'first' => 2, 'last' => 2, 'count' => 2, 'count()' => 1, 'isEmpty' => 1, 'toArray' => 1, 'values' => 1, 'indexOf' => 3, 'contains' => 3, 'containsKey' => 2, 'offsetExists' => 2, '[]isset' => 3, '[]empty' => 1, '[]??' => 2, 'foreach' => 2, 'foreachkv' => 2, 'jsonSerialize' => 1, '(array)' => 1, 'iterator_to_array' => 1];
function seqextra(string $c): array {
    return match ($c) {
        'Vector' => ['setSize' => 5, 'reserve' => 3, 'shrinkToFit' => 3, 'capacity' => 2], 'Deque' => ['capacity' => 2, 'bottom' => 1, 'top' => 1],
        'IntVector' => ['pushInts' => 4, 'setInt' => 3, 'capacity' => 2], 'BitVector' => ['pushBits' => 4, 'setBit' => 3, 'setSize' => 4, 'capacity' => 2], 'LowMemoryVector' => ['capacity' => 2], default => [],
    };
}
/** random arguments for op */
function seqargs(string $c, string $op, int $n, int $mode, object $o): array {
    switch ($op) {
        case 'push': case 'pushInts': case 'pushBits': case 'pushFront': case 'unshift': return seqvals($c, $mode);
        case 'insert': return [chance(80) ? r(0, $n) : off($n), ...seqvals($c, $mode)];
        case 'set': case 'setInt': case 'setBit': return [chance(70) ? inoff($n) : off($n), valfor($c, $mode)];
        case '[]set': case 'offsetSet': return [chance(60) ? inoff($n) : someoffset($n), valfor($c, $mode)];
        case '[]push': return [valfor($c, $mode)];
        case '[]unset': case 'offsetUnset': return [chance(60) ? inoff($n) : someoffset($n)];
        case 'get': return [off($n)];
        case '[]get': case 'offsetGet': case 'offsetExists': case '[]isset': case '[]empty': return [someoffset($n)];
        case '[]??': return [someoffset($n), dflt()];
        case 'indexOf': case 'contains': $v = $n && chance(70) ? $o->get(r(0, $n - 1)) : valfor($c, $mode); if (chance(30)) $v = alias($v);
            if ($op === 'indexOf' && (($c === 'IntVector' && !is_int($v)) || ($c === 'BitVector' && !is_bool($v)))) return [$c === 'BitVector' ? chance(50) : one([3, 0, -1, 1 << 40])];
            return [$v];
        case 'containsKey': return [chance(80) || $c === 'ImmutableSequence' ? off($n) : someoffset($n)];
        case 'setSize': return chance(50) ? [one([0, 1, $n, $n + 1, $n - 1, $n + 5, intdiv($n, 2), r(0, 40)])] : [one([0, $n + 1, $n + 3, r(0, 40), -1]), valfor($c, $mode)];
        case 'reserve': return [one([0, -1, $n, $n + 1, r(0, 64), $n - 1])];
        default: return [];
    }
}
function seqstep(string $c, int $h, int $mode, int $growth, bool $reads = true, ?array $ob = null): void {
    $o = T::$objs[$h]; $n = count($o);
    if ($n > 100000 || $n < 0) $n = 5;
    $w = SEQ_MUT;
    if ($growth > 0) { $w['push'] *= 3; $w['pushFront'] *= 3; $w['insert'] *= 2; } elseif ($growth < 0) { $w['pop'] *= 3; $w['popFront'] *= 4; $w['[]unset'] *= 2; }
    if ($growth > 1) unset($w['clear']);
    $w += seqextra($c);
    if ($growth > 1) unset($w['setSize']);
    if ($reads) $w += SEQ_READ;
    if ($c === 'Vector' || $c === 'ImmutableSequence') $w += ['map' => 2, 'filter' => 2];
    $op = pick($w);
    if ($op === 'map' || $op === 'filter') { callcb($h, $op); return; }
    $a = seqargs($c, $op, $n, $mode, $o);
    if (($c === 'IntVector' || $c === 'BitVector') && in_array($op, ['push', 'pushFront', 'unshift', 'insert', 'set', '[]set', 'offsetSet', '[]push'], true) && chance(8)) {
        $i = count($a) - 1; if ($op === 'insert' || $op === 'push') $i = r($op === 'insert' ? 1 : 0, max($op === 'insert' ? 1 : 0, $i));
        $a[max($i, 0)] = badfor($c);
        if ($op === 'insert' && !is_int($a[0])) $a[0] = 0;
        if ($op === 'insert' && count($a) < 2) $a[1] = badfor($c);
    }
    call($h, $op, $a, $ob);
}
/** map/filter with a callback whose calls are recorded */
function callcb(int $h, string $op, ?callable $f = null): void {
    $o = T::$objs[$h]; $log = [];
    $f ??= one([null, fn($v) => $v, fn($v) => [$v, 1], fn($v) => chance(50), fn($v) => is_int($v) ? $v + 1 : null, fn($v) => str_repeat('q', 3), 'thrower']);
    if ($f === null && $op === 'map') $f = fn($v) => [$v];
    if ($f === 'thrower') { $left = r(0, 3); $f = function ($v) use (&$left) { if ($left-- <= 0) throw new DomainException('cb'); return $v; }; }
    $e = ['op' => $op, 'o' => $h, 'a' => [T::v($f === null ? null : true)]];
    T::pend(short($o) . "::$op");
    $cb = $f === null ? null : function (...$a) use ($f, &$log) {
        $i = count($log); $log[] = ['a' => T::vs($a), 'x' => '', 'r' => 1];
        try { $r = $f(...$a); } catch (\Throwable $t) { $log[$i]['x'] = get_class($t); throw $t; }
        $log[$i]['r'] = T::v($r);
        return $r;
    };
    $slots = []; if ($cb !== null && chance(25)) { $by = $cb; $cb = function &(...$a) use ($by, &$slots) { $slots[] = $by(...$a); return $slots[count($slots) - 1]; }; } // returns by reference
    $x = ''; $n = null;
    try { $n = $op === 'filter' && $cb === null && chance(50) ? $o->filter() : $o->$op($cb); } catch (\Throwable $t) { $x = get_class($t); unset($t); }
    foreach ($slots as &$slot) $slot = 'changed later'; unset($slot);
    $e['x'] = $x; $e['cb'] = $log; $ob = [$h];
    if ($n !== null) { $e['n'] = T::add($n); $ob[] = $e['n']; }
    T::emit($e, $ob);
    if ($n !== null) { unset(T::$objs[$e['n']]); T::emit(['op' => 'drop', 'o' => $e['n']]); }
}
function seqtrace(string $c): void {
    $mode = modes($c);
    $h = newseq($c, $mode);
    $kind = r(0, 9);
    if ($kind < 7) { // short traces near empty and near capacity boundaries
        $g = r(-1, 1);
        for ($i = r(10, 45); $i > 0; $i--) { if (chance(10)) $g = r(-1, 1); if (chance(4)) $mode = modes($c); seqstep($c, $h, $mode, $g); }
    } else { // grow past several reallocations, then shrink; contents checked every few steps
        $target = one([20, 40, 70, 140]);
        for ($i = 0; count(T::$objs[$h]) < $target && $i < 3 * $target; $i++) seqstep($c, $h, $mode, 2, false, $i % 8 ? [] : [$h]);
        for ($i = 0; $i < 20; $i++) seqstep($c, $h, $mode, 0);
        for ($i = 0; count(T::$objs[$h]) > 0 && $i < 2 * $target; $i++) seqstep($c, $h, $mode, -1, false, $i % 8 ? [] : [$h]);
        call($h, 'toArray');
    }
}
function camp_C01(): void { seqtrace(one(['Vector', 'Vector', 'Deque', 'Deque', 'ImmutableSequence'])); }
function camp_C02(): void { seqtrace(one(['IntVector', 'LowMemoryVector'])); }

function randbytes(int $n): string { $s = ''; while ($n-- > 0) $s .= chr(chance(30) ? one([0, 255, 1, 128]) : r(0, 255)); return $s; }
function bitword(): int { return one([0, -1, 1, 127, -128, 128, 255, 32767, 32768, -32768, 65535, 2147483647, 2147483648, -2147483648, 4294967295, PHP_INT_MAX, PHP_INT_MIN, 0x0123456789abcdef, -81985529216486896, r(0, 255), r(0, 65535), (r(0, 0xffffffff) << 32) | r(0, 0xffffffff)]); }
const BIT_W = ['getInt8' => 2, 'getUInt8' => 2, 'getInt16' => 2, 'getUInt16' => 2, 'getInt32' => 2, 'getUInt32' => 2, 'getInt64' => 2, 'setInt8' => 2, 'setInt16' => 2, 'setInt32' => 2, 'setInt64' => 2, 'toBinaryString' => 2];
function bitstep(int $h, ?array $ob = null): void {
    $o = T::$objs[$h]; $n = count($o); $op = pick(BIT_W);
    if ($op === 'toBinaryString') { call($h, $op, [], $ob); return; }
    preg_match('/\d+/', $op, $m); $k = intdiv($n, (int)$m[0]);
    $i = chance(70) && $k > 0 ? r(0, $k - 1) : one([$k, $k - 1, $k + 1, -1, 0, intdiv($n, 8), $n, 1 << 61, 1 << 58, PHP_INT_MAX, PHP_INT_MIN]);
    call($h, $op, $op[0] === 's' ? [$i, bitword()] : [$i], $ob);
}
function camp_C03(): void {
    if (chance(45)) { seqtrace('BitVector'); return; }
    if (chance(60)) { $h = mkx('BitVector', 'fromBinaryString', [randbytes(sz([0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 24]))]); }
    else $h = newseq('BitVector', 0, sz([0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128]));
    $g = r(-1, 1);
    for ($i = r(15, 50); $i > 0; $i--) { if (chance(10)) $g = r(-1, 1); if (chance(45)) bitstep($h); else seqstep('BitVector', $h, 0, $g); }
}
