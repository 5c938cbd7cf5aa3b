<?php
// replay.php GRAPH MODEL DEPTH SHARD OF WALKS STEPS SEED DIR TAG KNOWN
// GRAPH holds the transitions of a bounded model as TLC printed them. Every path of DEPTH changes through it, and from the end
// of each every call, is executed in the real code and compared; then WALKS random paths of STEPS calls.
require __DIR__ . '/models.php';
foreach (glob(__DIR__ . '/camp_{tree,iter,cached}.php', GLOB_BRACE) as $f) require_once $f;
[, $graph, $name, $depth, $shard, $of, $walks, $steps, $seed, $dir, $tag, $knownf] = $argv;
T::open($dir, $tag); T::$off = true; $M = prepared($name);
$known = []; foreach (file($knownf) as $l) $known[json_decode($l, true)['id']] = 0;
$kind = []; foreach ($M['calls'] as $x) $kind[$x['op'] . json_encode($x['a'])] = $x['k'];
$G = []; $I = [];
foreach (new SplFileObject($graph) as $l) {
    if (strlen($l) < 4) continue;
    $x = json_decode($l, true);
    if (isset($x['k'])) { $I[$x['k'] - 1] = $x; continue; }
    $f = json_encode($x['f']); $e = $x['e']; $ek = $e['op'] . $e['o'] . json_encode($e['a']);
    $G[$f][$ek]['e'] = $e; $G[$f][$ek]['k'] = $kind[$e['op'] . json_encode($e['a'])] ?? 1;
    $G[$f][$ek]['alts'][] = ['m' => $x['m'], 'x' => $x['x'], 'r' => $x['r'], 'kf' => $x['kf'], 'kr' => $x['kr'], 't' => $x['t'], 'pu' => $x['pu'] ?? -1, 'tk' => json_encode($x['t'])];
}
foreach ($G as &$es) $es = array_values($es); unset($es);

final class World {
    public array $o = []; public ?object $it = null; public bool $g = false;
    public function __construct(string $c, array $from, bool $kv) {
        $cls = "Teds\\$c"; $this->o[1] = $from ? ($kv ? $cls::__set_state($from) : new $cls($from)) : new $cls();
    }
    /** executes a call: [what was observed, exception, result] */
    public function run(array $e): array {
        $op = $e['op']; $m = 1; $r = null; $x = '';
        try {
            switch ($op) {
                case 'clone': $this->o[2] = clone $this->o[1]; break;
                case 'drop': unset($this->o[2]); break;
                case 'itnew': $this->it = $this->o[1]->getIterator(); $this->g = false; break;
                case 'itnewg': $o = $this->o[1]; $this->it = (function () use ($o) { foreach ($o as $k => $v) yield [$k, $v]; })(); $this->g = true; break;
                case 'itdrop': $this->it = null; break;
                case 'itnext': $this->it->next(); $m = $this->seen(); break;
                case 'itrewind': $this->it->rewind(); $m = $this->seen(); break;
                case 'itread': $m = $this->seen(); break;
                default: $a = []; foreach ($e['a'] as $i) $a[] = U::$val[$i]; $r = perform($op, $this->o[$e['o']], $a);
                    if ($op === 'extract') $m = T::v($r);
            }
        } catch (\Throwable $t) { $x = get_class($t); unset($t); }
        return [$m, $x, $r];
    }
    private function seen(): array {
        if (!$this->it->valid()) return [0, 1, 1];
        if ($this->g) { [$k, $v] = $this->it->current(); return [1, T::v($k), T::v($v)]; }
        try { $v = T::v($this->it->current()); $k = T::v($this->it->key()); } catch (\Throwable $t) { return [1, 0, 0]; }
        return [1, $k, $v];
    }
}
/** a collection whose source is read lazily, and two iterators over it */
final class LazyWorld {
    public array $o = []; public array $it = []; public object $src;
    public function __construct(array $from) {
        [$pairs, $fail, $kind, $in] = $from;
        if ($kind === 'gen') { $this->src = new LazyCount; $s = lazygen($this->src, $pairs, $fail); } else $s = $this->src = new LazySrc($pairs, $fail, $in);
        $this->o[1] = new Teds\CachedIterable($s);
    }
    public function run(array $e): array {
        $op = $e['op']; $r = null; $x = '';
        try {
            if ($op === 'itnew') $this->it[$e['o']] = $this->o[1]->getIterator();
            elseif (strncmp($op, 'it', 2) === 0) $r = $this->it[$e['o']]->{substr($op, 2)}();
            else { $a = []; foreach ($e['a'] as $i) $a[] = U::$val[$i]; $r = perform($op, $this->o[1], $a); }
        } catch (\Throwable $t) { $x = get_class($t); unset($t); }
        return [1, $x, $r];
    }
}
function world($from): object { global $M; return isset($M['lazy']) ? new LazyWorld($from) : new World($M['class'], $from, KIND[$M['class']] === 'kv'); }
function islist($r, array $s): bool {
    if (!is_array($r) || count($r) !== count($s)) return false;
    $i = 0; foreach ($r as $k => $v) { if ($k !== $i || T::v($v) !== $s[$i]) return false; $i++; }
    return true;
}
function fits(array $d, $r): bool {
    switch ($d['t']) {
        case 'any': return true;
        case 'val': return T::v($r) === $d['i'];
        case 'int': return $r === $d['n'];
        case 'word': return is_int($r) && T::words($r) === $d['w'];
        case 'bool': return $r === $d['b'];
        case 'null': return $r === null;
        case 'list': return islist($r, $d['s']);
        case 'pairs': if (!is_array($r) || !array_is_list($r) || count($r) !== count($d['s'])) return false; foreach ($r as $i => $p) if (!islist($p, $d['s'][$i])) return false; return true;
        case 'ipairs': if (!is_array($r) || !array_is_list($r) || count($r) !== count($d['s'])) return false; foreach ($r as $i => [$k, $v]) if ($k !== $i || T::v($v) !== $d['s'][$i]) return false; return true;
        case 'bag': if (!is_array($r) || !array_is_list($r)) return false; $a = T::vs($r); $b = $d['s']; sort($a); sort($b); return $a === $b;
        case 'str': return is_string($r) && ($r === '' ? [] : array_values(unpack('C*', $r))) === $d['b'];
        case 'oneof': return in_array(T::v($r), $d['S'], true);
        case 'intin': return is_int($r) && $r >= $d['lo'] && $r <= $d['hi'];
        case 'bits': $n = count($d['d']); if (!is_string($r) || strlen($r) !== intdiv($n + 7, 8)) return false;
            for ($i = 0; $i < $n; $i++) if (((ord($r[$i >> 3]) >> ($i & 7)) & 1) !== ($d['d'][$i] === T::v(true) ? 1 : 0)) return false; return true;
        case 'karr': return is_array($r) && count($r) === count($d['s']);
    }
    throw new LogicException("no such result {$d['t']}");
}
/** the outcome among those allowed that was observed, or null */
function agreed(array $en, array $seen, object $w, bool $contents): ?array {
    global $known; [$m, $x, $r] = $seen; $else = null; $alt = null;
    if (count($en['alts']) === 1 && !is_array($en['alts'][0]['m'])) $alt = $en['alts'][0];
    else foreach ($en['alts'] as $a) if ($a['m'] === $m) { $alt = $a; break; } elseif (is_array($a['m']) && $a['m'][0] === 9) $else = $a;
    $alt ??= $else;
    if (!$alt || $alt['x'] !== $x) return null;
    if ($x === '' && !fits($alt['r'], $r)) { if ($alt['kf'] === '' || !isset($known[$alt['kf']]) || !fits($alt['kr'], $r)) return null; $known[$alt['kf']]++; }
    if ($alt['pu'] >= 0) return $w->src->delivered() === $alt['pu'] && !$w->src->dup() ? $alt : null;
    if ($contents) foreach ([1, 2] as $h) if ($alt['t'][$h - 1] !== [] && (!isset($w->o[$h]) || T::content($w->o[$h]) !== $alt['t'][$h - 1][0])) return null;
    return $alt;
}
function words(array $e): string { return $e['op'] . ($e['o'] === 2 ? ' on the copy' : '') . '(' . implode(', ', array_map(fn($i) => str_replace("\n", '', var_export(U::$val[$i], true)), $e['a'])) . ')'; }
function failed(array $from, array $path, array $en, array $seen, object $w): never {
    global $M;
    echo "history of the specification that the code does not follow:\n  new {$M['class']} from " . json_encode($from) . "\n";
    foreach ($path as $e) echo '  ' . words($e) . "\n";
    echo '  ' . words($en['e']) . "\nobserved " . json_encode($seen[0]) . ($seen[1] !== '' ? " throws $seen[1]" : ' returns ' . json_encode($seen[2]) . ' (value ' . T::v($seen[2]) . ')') . "\n";
    if ($w instanceof LazyWorld) echo 'the source has delivered ' . $w->src->delivered() . ($w->src->dup() ? ', some twice' : '') . "\n";
    else foreach ($w->o as $h => $o) echo "contents of $h: " . json_encode(T::content($o)) . "\n";
    echo 'allowed: ' . json_encode($en['alts']) . "\n"; exit(3);
}
$nh = $nc = 0; $shapes = []; $tree = in_array($M['class'], ['StrictTreeMap', 'StrictTreeSet']);
function pending(array $from, array $path, array $e): void { T::$off = false; T::pend(json_encode($from) . ' ' . implode(' ', array_map('words', $path)) . ' ' . words($e)); T::$off = true; }
function explore(array $from, array $path, string $state, int $left): void {
    global $G, $M, $nh, $nc, $shard, $of;
    foreach ($G[$state] ?? [] as $i => $en) {
        if (!$path && $i % $of !== $shard) continue;
        $w = world($from);
        foreach ($path as $e) $w->run($e);
        if (!$path) pending($from, $path, $en['e']);
        $seen = $w->run($en['e']); $nh++; $nc += count($path) + 1;
        $alt = agreed($en, $seen, $w, true) ?? failed($from, $path, $en, $seen, $w);
        unset($w);
        if ($left > 0 && $en['k']) explore($from, [...$path, $en['e']], $alt['tk'], $left - 1);
    }
}
$shard = (int)$shard; $of = (int)$of; mt_srand((int)$seed * 1000 + $shard);
foreach ($I as $k => $init) explore($M['from'][$k], [], json_encode($init['t']), (int)$depth);
for ($n = 0; $n < (int)$walks; $n++) {
    $k = array_rand($I); $from = $M['from'][$k]; $state = json_encode($I[$k]['t']); $w = world($from); $path = [];
    for ($s = 0; $s < (int)$steps; $s++) {
        if (!isset($G[$state])) break;
        $en = $G[$state][mt_rand(0, count($G[$state]) - 1)];
        for ($try = 0; $try < 6 && !isset($G[$en['alts'][0]['tk']]); $try++) $en = $G[$state][mt_rand(0, count($G[$state]) - 1)];
        $seen = $w->run($en['e']); $nc++;
        $alt = agreed($en, $seen, $w, true) ?? failed($from, $path, $en, $seen, $w);
        $path[] = $en['e']; $state = $alt['tk'];
    }
    $nh++;
}
echo "@REPLAYED $nh $nc " . json_encode($known, JSON_FORCE_OBJECT) . "\n";
