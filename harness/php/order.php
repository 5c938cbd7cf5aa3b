<?php
// order.php SIZE SEED DIR TAG: all pairs of a universe of values
require __DIR__ . '/pools.php';
foreach (glob(__DIR__ . '/camp_*.php') as $f) require $f;
[, $n, $seed, $dir, $tag] = $argv; mt_srand((int)$seed * 7919 + 5);
T::open($dir, $tag);
$u = [null, false, true];
foreach ([0, 1, -1, 2, 127, 128, 1 << 31, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 53) + 2, -(1 << 53), -(1 << 53) - 1, PHP_INT_MAX, PHP_INT_MAX - 1, PHP_INT_MAX - 511, PHP_INT_MAX - 512, PHP_INT_MIN, PHP_INT_MIN + 1, PHP_INT_MIN + 1024] as $i) { $u[] = $i; $u[] = (float)$i; }
array_push($u, -0.0, 0.5, -0.5, 1.5, -1.5, INF, -INF, NAN, -NAN, 5e-324, -5e-324, 1e300, -1e300, 9007199254740993.0, 9223372036854774784.0, -9223372036854777856.0, 1.8446744073709552e19, 0.1 + 0.2, 0.3);
array_push($u, '', '0', '1', '1.0', '01', 'a', 'A', 'aa', 'ab', 'b', "a\0", "\0", "\0\0", "\xff", "\x7f", "\x80", '9', '10', 'abcdefgh', 'abcdefgi', 'abcdefg');
array_push($u, [], [null], [0], [0.0], [-0.0], [1], ['1'], [true], [NAN], [1, 2], [2, 1], [1 => 1], ['a' => 1], ['b' => 1], ['aa' => 1], [-1 => 1], ['a' => 1, 'b' => 2], ['b' => 2, 'a' => 1], [[]], [[1]], [[1.0]], [[[]]], [1, 2, 3], ['x' => ['y' => 1]], ['x' => ['y' => 2]], [0 => 1, 1 => 2, 2 => 4], [PHP_INT_MAX => 1], [PHP_INT_MIN => 1]);
for ($i = 0; $i < 13; $i++) $u[] = ob($i); array_push($u, ob(18), ob(17), ob(28), ob(27));
for ($i = 0; $i < 3; $i++) $u[] = res($i);
array_push($u, [ob(0)], [ob(7)], [res(0)], fixed()['enum'], fixed()['clo']);
while (count($u) < $n) array_push($u, ...family(4));
$u = array_slice($u, 0, (int)$n); $rows = fopen("$dir/rows$tag.ndjson", 'w'); $hs = [];
$w = array_map('relayout', $u); // the same values elsewhere in memory
foreach ($u as $i => $v) { T::pend("strict_hash of value $i"); $hs[$i] = Teds\strict_hash($v); }
foreach ($u as $i => $a) {
    $c = $q = $s = []; T::pend("comparisons of value $i");
    foreach ($w as $b) { $c[] = Teds\stable_compare($a, $b) <=> 0; $q[] = Teds\strict_equals($a, $b) ? 1 : 0; $s[] = $a === $b ? 1 : 0; }
    fwrite($rows, json_encode(['v' => T::v($a), 'c' => $c, 'q' => $q, 'i' => $s, 'h' => array_search($hs[$i], $hs, true)]) . "\n");
}
fclose($rows); T::close(); unlink("$dir/trace$tag.ndjson");
echo '@ORDER ' . count($u) . "\n";
