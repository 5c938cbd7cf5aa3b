<?php
// Data of all sorts given to the decoders (C13).
const DECODED = ['Vector', 'Deque', 'IntVector', 'BitVector', 'LowMemoryVector', 'ImmutableSequence', 'StrictHashMap', 'StrictHashSet', 'StrictTreeMap', 'StrictTreeSet', 'StrictSortedVectorMap', 'StrictSortedVectorSet', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet', 'StrictMinHeap', 'StrictMaxHeap', 'MutableIterable', 'ImmutableIterable', 'CachedIterable'];
const BYTED = ['IntVector', 'BitVector', 'LowMemoryVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet', 'ImmutableSortedStringSet'];
const NATIVE = ['BitVector', 'IntVector', 'ImmutableSortedStringSet'];
function le(int $n, int $w): string { return substr(pack('P', $n), 0, $w); }
function varlen(int $n): string { return match (chance(90) ? ($n <= 252 ? 0 : ($n < 65536 ? 1 : 2)) : r(0, 2)) { 0 => chr($n & 255), 1 => "\xfd" . pack('v', $n), 2 => "\xfe" . pack('V', $n) }; }
/** a byte string in which something may be wrong */
function spoil(string $s): string {
    if (chance(50)) return $s;
    switch (r(0, 5)) {
        case 0: return substr($s, 0, r(0, strlen($s)));
        case 1: return $s . randbytes(r(1, 3));
        case 2: if ($s === '') return "\0"; $s[r(0, strlen($s) - 1)] = chr(one([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 127, 128, 252, 253, 254, 255])); return $s;
        case 3: if ($s === '') return ''; $s[strlen($s) - 1] = chr(r(0, 9)); return $s;
        case 4: $i = r(0, strlen($s)); return substr($s, 0, $i) . randbytes(r(1, 2)) . substr($s, $i);
        default: if (strlen($s) < 2) return $s; $i = r(0, strlen($s) - 1); $j = r(0, strlen($s) - 1); $t = $s[$i]; $s[$i] = $s[$j]; $s[$j] = $t; return $s;
    }
}
/** little-endian ints of w bytes, mostly increasing if sorted */
function intbytes(int $w, bool $sorted): string {
    if ($w > 1 && chance(3)) { $ns = []; $x = r(-30000, -20000); for ($i = intdiv(one([8184, 8192, 8200, 9000]), $w); $i > 0; $i--) $ns[] = $x += r(1, $w === 2 ? 6 : 70000); // large enough to be kept in the string it came in
        if (chance(40)) { $i = r(0, count($ns) - 2); $ns[$i] = chance(50) ? $ns[$i + 1] : $ns[$i + 1] + 1; } return implode('', array_map(fn($n) => le($n, $w), $ns)); }
    $ns = []; for ($i = sz([0, 1, 2, 3, 4, 5, 8, 9]); $i > 0; $i--) $ns[] = chance(50) ? edgeint(match ($w) { 1 => 0, 2 => 1, 4 => 2, 8 => 3 }) : r(-100, 100);
    if ($sorted) { $ns = array_values(array_unique($ns)); sort($ns); if (count($ns) > 1 && chance(25)) { $i = r(0, count($ns) - 2); if (chance(50)) $ns[$i] = $ns[$i + 1]; else [$ns[$i], $ns[$i + 1]] = [$ns[$i + 1], $ns[$i]]; } }
    return implode('', array_map(fn($n) => le($n, $w), $ns));
}
/** strings that begin alike, the length of one of which goes beyond the end of the data */
function overrun(): string {
    $l = one([0, 1, 20, 100, 250]); $n = r(1, 4); $r = pack('V', $n); $p = str_repeat('a', $l); $bad = chance(70) ? $n - 1 : r(0, $n - 1);
    for ($i = 0; $i < $n; $i++) {
        $t = $p . ($i ? chr(97 + $i) . str_repeat('x', r(0, 2)) : ''); $m = strlen($t);
        if ($i === $bad) { $m += one([1, 2, 3, 100, 200, 250, 1000, 65000, 1 << 20, 0x7fffff00, 0xffffff00]); if ($m <= 252 && chance(15)) $m = one([253, 254, 255]); }
        $r .= ($m <= 252 ? chr($m) : ($m < 65536 ? "\xfd" . pack('v', $m) : "\xfe" . pack('V', $m))) . $t;
    }
    if (chance(25)) { $r = pack('V', $n + 1) . substr($r, 4) . one(["\xfd", "\xfe"]) . str_repeat(one(["\0", "\1", "\xff"]), r(0, 4)); } // a length that is itself cut off
    return chance(50) ? $r : substr($r, 0, strlen($r) - r(0, strlen($t)));
}
function stringset(): string {
    if (chance(12)) return overrun();
    if (chance(4)) { $ss = []; for ($i = one([255, 256, 257, 300, 520]); $i > 0; $i--) $ss[] = pack('n', $i); return pack('V', count($ss)) . implode('', array_map(fn($s) => varlen(2) . $s, array_reverse($ss))); }
    if (chance(2)) { $m = one([65535, 65536, 65537, 70000, 66000 + 256]); return pack('V', 2) . ($m < 65536 ? "\xfd" . pack('v', $m) : "\xfe" . pack('V', $m)) . str_repeat('m', $m) . "\x01z"; }
    $ss = []; for ($i = sz([0, 1, 1, 2, 3, 4, 6]); $i > 0; $i--) $ss[] = chance(85) ? rndstr() : str_repeat(chr(r(97, 99)), one([251, 252, 253, 254, 255, 256, 300]));
    $ss = array_values(array_unique($ss)); sort($ss, SORT_STRING);
    if (count($ss) > 1 && chance(15)) { $i = r(0, count($ss) - 2); if (chance(50)) $ss[$i] = $ss[$i + 1]; else [$ss[$i], $ss[$i + 1]] = [$ss[$i + 1], $ss[$i]]; }
    $n = count($ss); if (chance(10)) $n = one([0, $n + 1, max(0, $n - 1), 255, 65536, 0x7fffffff, 0x80000000, 0xffffffff]);
    return pack('V', $n) . implode('', array_map(fn($s) => varlen(strlen($s)) . $s, $ss));
}
/** the same with strings as they are in a script */
function interned(array $a): array { if (T::$off) return $a; foreach ($a as $k => $v) if (is_string($v)) $a[$k] = eval('return "' . preg_replace('/../', '\\\\x$0', bin2hex($v)) . '";'); return $a; }
function bitbytes(int $max): string { return randbytes(sz([0, 1, 1, 2, 3, 8, 9])) . chr(chance(85) ? r(0, $max) : one([$max + 1, 8, 255])); }
function hostilevalue() { return one([null, true, 0, 1, 7, 8, -1, PHP_INT_MAX, 1.5, '', "\0", "\x01", 'abc', [], [1], [[]], fixed()['o1'], PHP_INT_MIN, 1 << 32]); }
/** an array for __unserialize() of class c */
function unarray(string $c): array {
    $r = match (true) {
        in_array($c, ['IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet']) => (function () use ($c) { $t = r(1, 4); return [chance(92) ? $t : r(0, 6), spoil(intbytes([0, 1, 2, 4, 8][$t], $c !== 'IntVector'))]; })(),
        $c === 'BitVector' => [spoil(bitbytes(7))],
        $c === 'ImmutableSortedStringSet' => [spoil(stringset())],
        $c === 'LowMemoryVector' => (function () { $t = r(0, 7); return [chance(95) ? $t : r(0, 9), match ($t) { 0 => spoil(bitbytes(7)), 1 => spoil(bitbytes(3)), 2, 3, 4, 5 => spoil(intbytes([1, 2, 4, 8][$t - 2], false)), 6 => spoil(implode('', array_map(fn() => randbytes(8), range(1, r(1, 3))))), 7 => hostilelist(false) }]; })(),
        KIND[$c] === 'kv' => hostilelist(true),
        default => hostilelist(false),
    };
    if (chance(30)) switch (r(0, 9)) {
        case 7: if ($r) { $k = one(array_keys($r)); $v = $r[$k]; unset($r[$k]); $r[$k + one([1, 2, 5, 1 << 33])] = $v; } break;
        case 8: if ($r) { $k = one(array_keys($r)); $r["k"] = $r[$k]; unset($r[$k]); } break; // as many entries as before, one of which has a string key
        case 9: $i = r(0, count($r)); $r = [...array_slice($r, 0, $i), 'in' => hostilevalue(), 'be' => hostilevalue(), ...array_slice($r, $i)]; break; // a string key between others
        case 0: array_pop($r); break;
        case 1: $r[] = hostilevalue(); break;
        case 2: $r[one(['k', '', 'a b'])] = hostilevalue(); break;
        case 3: $r = array_combine(array_map(fn($k) => $k + 3, array_keys($r)), $r); break;
        case 4: $r = array_reverse($r, true); break;
        case 5: if ($r) $r[one(array_keys($r))] = hostilevalue(); break;
        case 6: $r = array_combine(array_map(fn($k) => "s$k", array_keys($r)), $r); break;
    }
    return $r;
}
/** values, no two of which are equal to each other without being the same */
function hostilelist(bool $even): array {
    $r = []; $n = sz([0, 1, 2, 3, 4, 6, 8, 9, 16, 17]); if ($even && $n % 2 && chance(90)) $n++; $most = one([20, 3 * $n]); $again = one([30, 30, 3, 0]);
    while (count($r) < $n) { $v = chance($again) && $r ? one($r) : (chance(60) ? r(0, $most) : anyval()); foreach ($r as $w) if (Teds\stable_compare($v, $w) === 0 && T::v($v) !== T::v($w)) continue 2; $r[] = $v; }
    return $r;
}
/** a list for __set_state() of class c */
function starray(string $c): array {
    if (KIND[$c] === 'kv') { $f = hostilelist(true); $r = array_chunk($f, 2); }
    else { $r = []; foreach (hostilelist(false) as $v) $r[] = match ($c) { 'BitVector' => chance(50), 'IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet' => edgeint(r(0, 3)), 'ImmutableSortedStringSet' => rndstr(), default => $v }; }
    if (chance(25)) switch (r(0, 3)) {
        case 0: $r[] = hostilevalue(); break;
        case 1: array_splice($r, r(0, count($r)), 0, [hostilevalue()]); break;
        case 2: $r['k'] = hostilevalue(); break;
        case 3: if ($r) $r[one(array_keys($r))] = one([[1 => 1, 0 => 2], [1], [1, 2, 3], ['a' => 1, 'b' => 2], 5, [[], []]]); break;
    }
    return $r;
}
/** does v hold an array that holds itself (PHP itself gives up on comparing those)? */
function cyclic($v, int $d = 0, array &$seen = []): bool {
    if (is_object($v)) { if (isset($seen[spl_object_id($v)])) return false; $seen[spl_object_id($v)] = $v; $v = (array)$v; $d = 0; }
    if (!is_array($v)) return false;
    if ($d > 8) return true;
    foreach ($v as $w) if (cyclic($w, $d + 1, $seen)) return true;
    return false;
}
/** a string for unserialize(), made from that of a real collection */
function orstring(string $c): string {
    $cls = "Teds\\$c";
    if (chance(50)) $s = 'O:' . strlen($cls) . ':"' . $cls . '":' . substr(serialize(unarray($c)), 2);
    else { $a = starray($c); try { $s = serialize($cls::__set_state($a)); } catch (\Throwable) { $s = serialize($a); } }
    for ($k = r(0, 4); $k > 0; $k--) switch (r(0, 7)) {
        case 0: $s = preg_replace_callback('/i:(-?\d+);/', fn($m) => chance(20) ? one(['i:0;', 'i:1;', 'i:9;', 'i:-1;', 'N;', 'b:1;', 'd:1.5;', 's:1:"k";', 'R:1;', 'R:2;', 'r:1;', 'r:2;', 'a:0:{}', 'i:99999999999999999999;']) : $m[0], $s); break;
        case 1: $s = preg_replace_callback('/s:(\d+):/', fn($m) => chance(20) ? 's:' . ($m[1] + r(-1, 1)) . ':' : $m[0], $s); break;
        case 2: $s = preg_replace_callback('/":(\d+):\{/', fn($m) => chance(50) ? '":' . max(0, $m[1] + r(-1, 2)) . ':{' : $m[0], $s); break;
        case 3: $s = substr($s, 0, r(0, strlen($s))); break;
        case 4: if ($s !== '') $s[r(0, strlen($s) - 1)] = chr(one([0, 34, 48, 49, 57, 58, 59, 82, 97, 105, 115, 123, 125, 255])); break;
        case 5: $i = r(0, strlen($s)); $s = substr($s, 0, $i) . one(['i:0;', 'i:5;i:6;', 'R:2;', 'r:1;', '}', 's:1:"x";N;', 'O:8:"stdClass":0:{}']) . substr($s, $i); break;
        case 6: $d = one(DECODED); $s = preg_replace('/^O:\d+:"[^"]*"/', 'O:' . (strlen($d) + 5) . ':"Teds\\' . $d . '"', $s); break;
        case 7: $s = one(['a:2:{i:0;', 'C:11:"Teds\Vector":3:{', 'E:23:"Teds\EmptySet:INSTANCE";', '']) . $s . (chance(50) ? 'i:1;R:2;}' : ''); break;
    }
    return $s;
}
function adopt(string $c, string $how, $input, ?object $o, string $x): ?int {
    $e = ['op' => 'decode', 'c' => $c, 'w' => $how, 'a' => [T::v($input)], 'x' => $x];
    if (!$o) { T::emit($e); return null; }
    $e['m'] = T::content($o); $e['n'] = T::add($o); T::emit($e, [$e['n']]); return $e['n'];
}
/** an object that came out of a decoder must go on like any other of its class */
function goon(int $h): void {
    $o = T::$objs[$h]; $c = short($o); $mode = modes($c); $u = null;
    if (!in_array(KIND[$c], ['seq']) && !in_array($c, ['MutableIterable', 'ImmutableIterable', 'CachedIterable'])) {
        $u = match ($c) { 'SortedIntVectorSet', 'ImmutableSortedIntSet' => [edgeint(0), edgeint(1), r(-9, 9), r(0, 20)], 'ImmutableSortedStringSet' => [rndstr(), rndstr(), 'a', ''], default => range(0, 9) };
        foreach (contentsof($o) as $x) { if (KIND[$c] === 'kv') $x = $x[0]; foreach ($u as $y) if (Teds\stable_compare($x, $y) === 0 && T::v($x) !== T::v($y)) continue 2; $u[] = $x; }
    }
    unset($o);
    for ($k = r(2, 7); $k > 0; $k--) everystep($h, $u, $mode, r(-1, 1), [$h]);
    if (chance(30)) { $n = copyof($h); if ($n) { everystep($n, $u, $mode, 1, [$n, $h]); drop($n); } }
    if (in_array($c, ['StrictTreeMap', 'StrictTreeSet']) && chance(50)) shape($h);
}
function camp_C13(): void {
    for ($k = 0; $k < 6; $k++) {
        $c = chance(25) ? one(BYTED) : one(DECODED); $cls = "Teds\\$c"; $o = null; $x = '';
        switch (r(0, in_array($c, NATIVE) ? 9 : 7)) {
            case 0: case 1: case 2: $a = unarray($c); if (in_array($c, BYTED) && chance(25)) $a = interned($a); T::pend("$c::__unserialize " . bin2hex(serialize($a))); $how = chance(85) ? 'un' : 'ref'; $o = unmade($cls);
                try { $o->__unserialize($how === 'un' ? $a : arrayofrefs($a)); } catch (\Throwable $t) { $x = get_class($t); unset($t); } break;
            case 3: $a = unarray($c); if (!plain($a)) continue 2; $s = 'O:' . strlen($cls) . ':"' . $cls . '":' . substr(serialize($a), 2); T::pend('unserialize ' . bin2hex($s)); $how = 'un';
                try { $o = unserialize($s); } catch (\Throwable $t) { $x = get_class($t); unset($t); } break;
            case 4: $a = starray($c); T::pend("$c::__set_state " . bin2hex(serialize($a))); $how = 'st';
                try { $o = $cls::__set_state($a); } catch (\Throwable $t) { $x = get_class($t); unset($t); } break;
            case 5: case 6: if (T::$off) continue 2; // PHP's unserialize() itself leaks on some malformed strings
                $a = orstring($c); if (cyclic(@unserialize($a, ['allowed_classes' => false]))) continue 2; T::pend('unserialize ' . bin2hex($a)); $how = 'or';
                try { $o = unserialize($a, ['allowed_classes' => array_map(fn($d) => "Teds\\$d", [...DECODED, 'EmptySet', 'EmptyMap', 'EmptySequence'])]); } catch (\Throwable $t) { $x = get_class($t); unset($t); }
                if (is_array($o) && $o) $o = one(array_values($o));
                if (!is_object($o) || !isset(KIND[short($o)])) { $o = null; break; }
                $c = short($o); break;
            case 7: $a = null; $how = 'raw'; T::pend("unmade $c"); $o = unmade($cls); break;
            case 8: case 9: $a = spoil(match ($c) { 'BitVector' => bitbytes(7), 'IntVector' => (function () { $t = r(1, 4); return intbytes([0, 1, 2, 4, 8][$t], false) . chr($t); })(), 'ImmutableSortedStringSet' => stringset() });
                T::pend("$c::unserialize " . bin2hex($a)); $how = 'na'; try { $o = $cls::unserialize($a); } catch (\Throwable $t) { $x = get_class($t); unset($t); } break;
        }
        if ($x !== '' && $o && chance(30)) $o = null;
        if ($c === 'EmptySet' || $c === 'EmptyMap' || $c === 'EmptySequence') continue;
        T::pend("decoded $c from $how " . (is_string($a) ? bin2hex($a) : json_encode(T::v($a))));
        $h = adopt($c, $how, $a, $o, $x); unset($o);
        if ($h) goon($h);
    }
}
function arrayofrefs(array $a): array { foreach ($a as &$v) T::$keep[] = &$v; return $a; }
