<?php
function treeof(array $t): array { return $t ? [T::v($t['key']), $t['red'] ? 1 : 0, treeof($t['left']), treeof($t['right'])] : []; }
function shape(int $h): void {
    $o = T::$objs[$h]; T::pend('shape ' . short($o));
    $t = treeof($o->debugGetTreeRepresentation());
    T::emit(['op' => 'shape', 'o' => $h, 't' => $t, 'r' => T::v($o->debugIsBalanced())]);
}
/** red-black trees: the shape is recorded after the modifications */
function camp_C07(): void {
    $map = chance(50); $c = $map ? 'StrictTreeMap' : 'StrictTreeSet';
    $n = T::$large ?: one([4, 7, 10, 14, 20, 31, 64, 130]);
    $u = chance(80) ? range(0, $n) : universe(one([2, 3, 4, 5, 6]), min($n, 40));
    $noneg0 = array_values(array_filter($u, fn($k) => !(is_float($k) && $k == 0)));
    $init = []; for ($i = sz([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 30, 31, 32, 33]); $i > 0; $i--) $init[] = chance(50) ? one($noneg0) : $i;
    $h = $map ? pairsfrom($c, array_map(fn($k) => [$k, 1], $init), false) : setfrom($c, $init);
    shape($h);
    $every = $n > 150 ? 16 : ($n > 40 ? 4 : 1); $k = 0;
    $mut = function (string $op, $key) use (&$h, $map, &$k, $every) {
        $ob = $k % 8 ? [] : [$h];
        if ($op === 'add') $map ? call($h, one(['[]set', 'offsetSet']), [$key, $k], $ob) : call($h, 'add', [$key], $ob);
        elseif ($op === 'del') $map ? call($h, one(['[]unset', 'offsetUnset']), [$key], $ob) : call($h, 'remove', [$key], $ob);
        else call($h, $op, [], $ob);
        if ($k++ % $every === 0) shape($h);
    };
    for ($phase = r(1, 4); $phase > 0; $phase--) {
        $kind = r(0, 6); $len = r(5, min(2 * $n, 60));
        for ($i = 0; $i < $len; $i++) switch ($kind) {
            case 0: $mut('add', $u[$i % count($u)]); break;                    // ascending
            case 1: $mut('add', $u[count($u) - 1 - $i % count($u)]); break;    // descending
            case 2: $mut('add', one($u)); break;
            case 3: $mut('del', one($u)); break;
            case 4: $mut(chance(50) ? 'add' : 'del', one($u)); break;
            case 5: $mut(chance(70) ? 'del' : 'add', one($u)); break;
            default: $mut(chance(60) ? one(['pop', 'popFront']) : one(['add', 'del']), one($u)); break;
        }
        if (chance(25)) { $d = dup($h); if ($d) { shape($d); if (chance(50)) $h = $d; } }
        if (chance(5)) { call($h, 'clear'); shape($h); }
    }
}
