<?php
// tree.php CLASS KEYS DIR TAG: applies every change to every shape of the tree that can be reached with these many keys
require __DIR__ . '/models.php';
require __DIR__ . '/camp_tree.php';
[, $c, $n, $dir, $tag] = $argv; $n = (int)$n; $cls = "Teds\\$c"; $map = $c === 'StrictTreeMap';
T::open($dir, $tag); for ($k = 0; $k < $n; $k++) T::v($k);
$out = fopen("$dir/rows$tag.ndjson", 'w');
function change(object $o, bool $map, string $op, ?int $k): void {
    if ($op === 'add') { $map ? $o[$k] = true : $o->add($k); } elseif ($op === 'del') { if ($map) unset($o[$k]); else $o->remove($k); } else $o->$op();
}
$calls = []; for ($k = 0; $k < $n; $k++) { $calls[] = ['add', $k]; $calls[] = ['del', $k]; } $calls[] = ['pop', null]; $calls[] = ['popFront', null];
$start = new $cls; $seen = [json_encode(treeof($start->debugGetTreeRepresentation())) => true]; $todo = [[]]; $rows = 0;
while ($todo) {
    $next = [];
    foreach ($todo as $path) {
        foreach ($calls as [$op, $k]) {
            $o = new $cls; foreach ($path as [$p, $j]) change($o, $map, $p, $j);
            $d = $map ? $o->keys() : $o->values();
            if (!$d && $k === null) continue;
            T::pend("$c " . json_encode($path) . " $op " . json_encode($k));
            change($o, $map, $op, $k);
            $t = treeof($o->debugGetTreeRepresentation());
            $name = $op === 'add' ? ($map ? '[]set' : 'add') : ($op === 'del' ? ($map ? '[]unset' : 'remove') : $op);
            fwrite($out, json_encode(['c' => $c, 'op' => $name, 'a' => $k === null ? [] : ($map && $op === 'add' ? [T::v($k), T::v(true)] : [T::v($k)]), 'd' => T::vs($d), 't' => $t]) . "\n"); $rows++;
            $s = json_encode($t);
            if (!isset($seen[$s])) { $seen[$s] = true; $next[] = [...$path, [$op, $k]]; }
        }
    }
    $todo = $next;
}
fclose($out); T::close(); unlink("$dir/trace$tag.ndjson");
echo '@SHAPES ' . count($seen) . " $rows\n";
