<?php
require __DIR__ . '/rec.php';

/** runs one operation on a collection; returns what it returns */
function perform(string $op, object $o, array $a) {
    switch ($op) {
        case '[]get': return $o[$a[0]];
        case '[]set': $o[$a[0]] = $a[1]; return null;
        case '[]push': $o[] = $a[0]; return null;
        case '[]isset': return isset($o[$a[0]]);
        case '[]empty': return empty($o[$a[0]]);
        case '[]??': return $o[$a[0]] ?? $a[1];
        case '[]unset': unset($o[$a[0]]); return null;
        case 'count()': return count($o);
        case '(array)': return (array)$o;
        case 'foreach': $r = []; foreach ($o as $v) { $r[] = $v; if (count($r) > 100000) throw new LogicException('runaway iteration'); } return $r;
        case 'foreachkv': $r = []; foreach ($o as $k => $v) { $r[] = [$k, $v]; if (count($r) > 100000) throw new LogicException('runaway iteration'); } return $r;
        case 'iterator_to_array': return iterator_to_array($o, true);
        case 'json_encode': return json_decode(json_encode($o), true);
        case 'debugprops': return get_mangled_object_vars($o);
        case '[]&': $r = &$o[$a[0]]; $r = 77; return null;
        case '[][]=': try { $o[$a[0]][] = 77; } catch (\Error $t) { if (get_class($t) !== 'Error' || !$o instanceof ArrayAccess) throw $t; } return null; // scalars cannot be written into
        case '[]??=': return $o[$a[0]] ??= $a[1];
        case '[]+=': try { return $o[$a[0]] += $a[2]; } catch (\Error $t) { throw get_class($t) === 'Error' && $t->getPrevious() ? $t->getPrevious() : $t; } // PHP adds an Error of its own
        case '[][]push': $o[][] = 77; return null;
        case '[]&push': $r = &$o[]; $r = 77; return null;
        case '->set': $o->{$a[0]} = 1; return null;
        case '->ref': $r = &$o->{$a[0]}; $r = 1; return null;
        case '->get': return $o->{$a[0]};
        case '->isset': return isset($o->{$a[0]});
        case '->unset': unset($o->{$a[0]}); return null;
        case 'foreach&': foreach ($o as &$v) { $v = 77; } return null;
        case 'badclone': $z = clone $o; return null;
        case 'iterator_count': return iterator_count($o);
        case 'spread': return [...$o];
        case 'json': return json_encode($o) === json_encode($o->jsonSerialize());
        case 'var_dump': case 'print_r': return dumped($op, $o) === dumped($op, contentsof($o));
        case 'var_export': return exported($o) === exported(contentsof($o));
        case 'reserve!': $o->reserve($a[0]); return $o->capacity();
        case 'shrink!': $o->shrinkToFit(); return $o->capacity();
        default: return $o->$op(...$a);
    }
}
/** one recorded call: op on handle h with arguments a (PHP values) */
function call(int $h, string $op, array $a = [], array $ob = null, array $extra = []) {
    $o = T::$objs[$h];
    $e = ['op' => $op, 'o' => $h, 'a' => T::vs($a)];
    T::pend(short($o) . "::$op " . json_encode($e['a']));
    $r = null; $x = '';
    try { $r = perform($op, $o, $a); } catch (\Throwable $t) { $x = get_class($t); unset($t); }
    $e['x'] = $x; $e['r'] = T::v($r);
    T::emit($e + $extra, $ob ?? [$h]);
    return $x === '' ? $r : null;
}
/** what var_dump or print_r prints for the entries */
function dumped(string $f, $x): string { ob_start(); $f($x); return preg_replace(['/^.*\n/', '/^[ ]*\(\n/'], '', ob_get_clean(), 1); }
/** the entries as var_export prints them, without indentation */
function exported($x): string { return rtrim(preg_replace(['/^ +/m', '/^.*\n/'], '', preg_replace('/^.*\n/', "\n", var_export($x, true), 1)), ')'); }
function mk(string $c, ...$a): ?int { return mkx($c, 'new', $a); }
/** creates a collection: how = "new" (from an iterable), or a static factory */
function mkx(string $c, string $how, array $a): ?int {
    $cls = "Teds\\$c";
    $e = ['op' => $how, 'c' => $c, 'a' => T::vs($a)];
    T::pend("$c::$how " . json_encode($e['a']));
    $x = ''; $o = null;
    try { $o = $how === 'new' ? new $cls(...$a) : $cls::$how(...$a); } catch (\Throwable $t) { $x = get_class($t); unset($t); }
    $e['x'] = $x; $ob = [];
    if ($o !== null) { $e['n'] = T::add($o); $ob = [$e['n']]; }
    T::emit($e, $ob);
    return $o !== null ? $e['n'] : null;
}
function dup(int $h): ?int {
    $e = ['op' => 'clone', 'o' => $h];
    T::pend("clone " . short(T::$objs[$h]));
    $x = ''; $o = null;
    try { $o = clone T::$objs[$h]; } catch (\Throwable $t) { $x = get_class($t); }
    $e['x'] = $x; $ob = [$h];
    if ($o !== null) { $e['n'] = T::add($o); $ob[] = $e['n']; }
    T::emit($e, $ob);
    return $o !== null ? $e['n'] : null;
}

// ---- random choices ----
function r(int $a, int $b): int { return mt_rand($a, $b); }
function one(array $xs) { return $xs[mt_rand(0, count($xs) - 1)]; }
function chance(int $pct): bool { return mt_rand(1, 100) <= $pct; }
/** weighted choice: [name => weight] */
/** $o[k] += n, of which the specification is told the sum */
function plusat(int $h, $k, ?array $ob = null): void {
    try { $x = T::$objs[$h]->offsetGet($k); } catch (\Throwable) { $x = 0; }
    if (!is_int($x) && !is_float($x) && !is_bool($x) && $x !== null) return;
    $n = one([0, 1, -1, 2, 1.5, 1 << 20]); call($h, '[]+=', [$k, $x + $n, $n], $ob);
}
function pick(array $w) { $t = mt_rand(1, array_sum($w)); foreach ($w as $k => $x) { $t -= $x; if ($t <= 0) return $k; } }
/** an offset near the boundaries of a list of n elements */
function off(int $n): int {
    return match (r(0, 11)) { 0 => -1, 1 => 0, 2 => $n - 1, 3 => $n, 4 => $n + 1, 5 => one([PHP_INT_MAX, PHP_INT_MIN, 1 << 32, -(1 << 32), (1 << 32) + 1, 1 << 16]), 6 => intdiv($n, 2), default => $n > 0 ? r(0, $n - 1) : 0 };
}
/** a valid offset, or 0 */
function inoff(int $n): int { return $n > 0 ? (chance(30) ? one([0, $n - 1]) : r(0, $n - 1)) : 0; }
