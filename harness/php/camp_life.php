<?php
// Lifetimes of what is stored (C14), and user code that runs inside operations (C15).
const LIFE = ['Vector', 'Deque', 'LowMemoryVector', 'MutableIterable', 'StrictHashMap', 'StrictHashSet', 'StrictTreeMap', 'StrictTreeSet', 'StrictSortedVectorMap', 'StrictSortedVectorSet', 'StrictMinHeap', 'StrictMaxHeap'];
const LIFE_RO = ['ImmutableSequence', 'ImmutableIterable', 'CachedIterable'];
const LIFE_TYPED = ['IntVector', 'BitVector', 'SortedIntVectorSet'];
/** reaches a collection that unserialize() has made but not filled, and stops it from being filled */
final class Reach { public static ?object $o = null; public function __unserialize(array $d): void { self::$o = $d[0]; throw new DomainException('reached'); } }
/** a collection no constructor has run for */
function unmade(string $cls): object {
    try { unserialize('O:' . strlen($cls) . ':"' . $cls . '":1:{i:0;O:5:"Reach":1:{i:0;r:1;}}'); } catch (DomainException) {}
    $o = Reach::$o; Reach::$o = null; return $o;
}
/** one call with arguments made by f; nothing of it is kept */
function lcall(int $h, string $op, callable $f, bool $deaths = true): void {
    $from = Probe::$next; $o = T::$objs[$h]; $a = $f($o);
    $e = ['op' => $op, 'o' => $h, 'a' => T::vs($a)]; T::pend(short($o) . "::$op " . json_encode($e['a']));
    $r = null; $x = ''; T::begin(); $was = Probe::$loud; Probe::$loud = true;
    try { $r = perform($op, $o, $a); } catch (\Throwable $t) { $x = Boom::in($t) ? 'Boom' : get_class($t); $t = null; }
    Probe::$loud = $was;
    $e['x'] = $x; $e['r'] = T::v($r); unset($a, $r, $o, $t);
    if ($deaths) $e += life($from);
    T::end($e, [$h]);
}
function life(int $from): array { $d = Probe::$dead; Probe::$dead = []; return ['dd' => $d, 'nw' => Probe::$next > $from ? range($from + 1, Probe::$next) : []]; }
/** a value held somewhere, or null */
function heldval() {
    for ($i = 0; $i < 4 && T::$objs; $i++) { $o = T::$objs[one(array_keys(T::$objs))]; if ($o instanceof Teds\CachedIterable || !($c = contentsof($o))) continue; $x = one($c); if (KIND[short($o)] === 'kv') $x = $x[r(0, 1)]; if (!($x instanceof Probe && $x->link) && !($x instanceof Teds\Collection)) return $x; }
    return null;
}
/** an object; with meddling on, one that uses the collections when it dies, or when it is printed or encoded */
function probe(bool $meddler = true): object {
    if (Meddler::$on && $meddler && chance(15)) return new Meddler; // not inside arrays: PHP refuses to compare an array that is being printed
    $p = new Probe; $throws = chance(Meddler::$booms);
    if (Meddler::$on && chance(70)) Probe::$hooks[$p->pid] = function ($me) use ($throws) { meddle($me); if ($throws && Probe::$loud) throw new Boom; };
    else if ($throws) Probe::$hooks[$p->pid] = function ($me) { if (Probe::$loud) throw new Boom; };
    return $p;
}
final class Meddler implements JsonSerializable {
    public static bool $on = false; public static int $depth = 0; public static bool $window = false; public static int $booms = 0;
    private function act() { if (self::$window) meddle(); }
    public function jsonSerialize(): mixed { $this->act(); return 1; }
    public function __serialize(): array { $this->act(); return []; }
    public function __unserialize(array $d): void { }
    public function __debugInfo() { $this->act(); return []; }
}
/** some calls on some of the collections, made by user code inside another call */
function meddle(?Probe $me = null): void {
    if (!T::$objs || Meddler::$depth >= 3) return;
    Meddler::$depth++; $was = Probe::$loud; Probe::$loud = false;
    for ($k = r(1, 3); $k > 0; $k--) {
        $h = one(array_keys(T::$objs)); $c = short(T::$objs[$h]);
        if ($me && chance(20) && in_array($c, LIFE)) lcall($h, KIND[$c] === 'seq' || $c === 'MutableIterable' ? 'push' : (KIND[$c] === 'kv' ? '[]set' : 'add'), fn($o) => KIND[$c] === 'kv' ? [$me, 1] : [$me], false); // comes back to life
        else lstep($h, r(-1, 1), false);
    }
    Meddler::$depth--; Probe::$loud = $was;
}
function lval() {
    switch (r(0, 11)) {
        case 0: case 1: case 2: case 3: case 4: return probe();
        case 5: return [probe(false)]; case 6: return ['k' => probe(false), 1 => 'x' . r(0, 9)];
        case 7: case 8: return heldval();
        case 9: return str_repeat(chr(r(97, 101)), r(1, 3));
        default: return r(0, 5);
    }
}
function lvals(int $n): array { $r = []; while ($n-- > 0) $r[] = lval(); return $r; }
/** an operation of the class with arguments: [op, function that makes them] */
function lop(string $c, int $g = 0): array {
    $v = fn($o) => [lval()]; $none = fn($o) => []; $idx = fn($o) => [inoff(count($o))]; $idxv = fn($o) => [chance(85) ? inoff(count($o)) : off(count($o)), lval()];
    $key = fn($o) => [KIND[short($o)] === 'kv' ? (count($o) && chance(70) ? one($o->keys()) : lval()) : (count($o) && chance(70) ? one($o->values()) : lval())];
    $keyv = fn($o) => [count($o) && chance(50) ? one($o->keys()) : lval(), lval()];
    $add = $g > 0 ? 4 : 1; $del = $g < 0 ? 3 : 1;
    if (in_array($c, LIFE_TYPED)) {
        $w = KIND[$c] === 'seq' ? ['push' => fn($o) => lvals(r(1, 3)), 'pushFront' => $v, 'insert' => fn($o) => [0, lval(), lval()], 'set' => fn($o) => [0, lval()], '[]push' => $v, '[]set' => fn($o) => [0, lval()], 'contains' => $v, '[]get' => $v, '[]isset' => $v] : ['add' => $v, 'remove' => $v, 'contains' => $v];
        if ($c === 'BitVector') unset($w['contains']);
        $op = one(array_keys($w)); return [$op, $w[$op]];
    }
    switch (KIND[$c]) {
        case 'seq':
            $m = ['push' => [8 * $add, fn($o) => lvals(r(1, 3))], 'pushFront' => [4 * $add, fn($o) => lvals(r(1, 3))], 'unshift' => [1, $v], 'insert' => [5 * $add, fn($o) => [chance(90) ? r(0, count($o)) : -1, ...lvals(r(1, 3))]], 'pop' => [5 * $del, $none], 'popFront' => [5 * $del, $none], 'shift' => [1, $none], 'set' => [4, $idxv], '[]set' => [4, $idxv], 'offsetSet' => [2, $idxv], '[]push' => [3 * $add, $v], '[]unset' => [5 * $del, $idx], 'offsetUnset' => [3, $idx], 'clear' => [1, $none]];
            if ($c === 'Vector') $m += ['setSize' => [3, fn($o) => chance(60) ? [r(0, count($o))] : [count($o) + r(0, 5), lval()]], 'shrinkToFit' => [1, $none], 'reserve' => [1, fn($o) => [r(0, 40)]]];
            $m += ['get' => [1, $idx], '[]get' => [1, $idx], 'first' => [1, $none], 'last' => [1, $none], 'contains' => [1, $v], 'indexOf' => [1, $v], 'toArray' => [1, $none], '(array)' => [1, $none], 'foreach' => [1, $none], 'jsonSerialize' => [1, $none]]; break;
        case 'set': $m = ['add' => [10 * $add, $v], 'remove' => [6 * $del, $key], 'contains' => [1, $key], 'clear' => [1, $none], 'values' => [1, $none], '(array)' => [1, $none], 'foreach' => [1, $none]]; if ($c !== 'StrictHashSet') $m += ['pop' => [3 * $del, $none], 'popFront' => [3 * $del, $none], 'first' => [1, $none]]; break;
        case 'heap': $m = ['add' => [8 * $add, $v], 'extract' => [6 * $del, $none], 'top' => [1, $none], 'contains' => [1, $key], 'clear' => [1, $none], 'values' => [1, $none], '(array)' => [1, $none]]; break;
        default:
            if (str_ends_with($c, 'Map')) { $m = ['[]set' => [9 * $add, $keyv], 'offsetSet' => [4 * $add, $keyv], '[]unset' => [5 * $del, $key], 'offsetUnset' => [3 * $del, $key], 'get' => [1, $key], '[]get' => [1, $key], '[]isset' => [1, $key], 'containsKey' => [1, $key], 'contains' => [1, $v], 'clear' => [1, $none], 'toPairs' => [1, $none], '(array)' => [1, $none], 'foreach' => [1, $none], '[]push' => [1, $v]]; if ($c !== 'StrictHashMap') $m += ['pop' => [3 * $del, $none], 'popFront' => [3 * $del, $none], 'first' => [1, $none], 'lastKey' => [1, $none]]; }
            else { $m = ['valueAt' => [1, $idx], 'keyAt' => [1, $idx], 'indexOfKey' => [1, $v], 'contains' => [1, $v], 'toPairs' => [1, $none], 'keys' => [1, $none], '(array)' => [1, $none], 'foreach' => [1, $none], 'clear' => [1, $none]];
                if ($c === 'MutableIterable') $m += ['push' => [9 * $add, fn($o) => lvals(2)], 'pop' => [5 * $del, $none], 'setKeyAt' => [4, $idxv], 'setValueAt' => [4, $idxv], 'setSize' => [3, fn($o) => [chance(70) ? r(0, count($o)) : count($o) + r(0, 4)]], 'shrinkToFit' => [1, $none]]; }
    }
    $op = pick(array_map(fn($x) => $x[0], $m)); return [$op, $m[$op][1]];
}
function lstep(int $h, int $g = 0, bool $deaths = true): void { [$op, $f] = lop(short(T::$objs[$h]), $g); lcall($h, $op, $f, $deaths); }
/** is in the middle of iterating over the collection, and does not hold it otherwise */
function lgen(array $box) { foreach (array_pop($box) as $_) { $_ = null; yield; } }
/** a new collection of about n entries (or, with bad, an attempt that fails at some point) */
function lmake(string $c, int $n, bool $bad = false, bool $deaths = true): ?int {
    $from = Probe::$next; $cls = "Teds\\$c"; $kv = KIND[$c] === 'kv'; T::pend("make $c" . ($bad ? ' from something bad' : ''));
    $src = []; for ($i = 0; $i < $n; $i++) $src[] = in_array($c, LIFE_TYPED) ? ($c === 'BitVector' ? chance(50) : r(0, 300)) : ($kv ? [$i > 0 && chance(20) ? $src[r(0, $i - 1)][0] : lval(), lval()] : lval());
    $m = $kv ? array_map(fn($p) => [T::v($p[0]), T::v($p[1])], $src) : T::vs($src);
    $gen = fn($s, $at) => (function () use ($s, $at, $kv) { foreach ($s as $i => $p) { if ($i === $at) throw new DomainException('source'); if ($kv) yield $p[0] => $p[1]; else yield $p; } if ($at >= 0) throw new DomainException('source'); })();
    $x = ''; $o = null; $at = $bad ? r(0, $n) : -1; $k = r(0, 4);
    try {
        if ($bad) switch ($k) {
            case 0: case 1: $o = new $cls($gen($src, $at)); if ($c === 'CachedIterable') $o->toPairs(); break;
            case 2: if ($kv) { array_splice($src, $at, 0, [one([5, [], [1], [1 => 2], 'x', new Probe, ['a' => new Probe]])]); $o = $cls::__set_state($src); } else $o = new $cls($gen($src, $at)); break;
            case 3: if ($kv) { array_splice($src, $at, 0, [one([5, [], [1], 'x', [new Probe], [1 => new Probe]])]); $o = $cls::fromPairs($c !== 'CachedIterable' && chance(50) ? new ArrayIterator($src) : $src); } else $o = new $cls($gen($src, $at)); break;
            case 4: $flat = $kv ? array_merge(...$src, ...[[]]) : $src; array_splice($flat, r(0, count($flat)), 0, $kv && chance(50) ? [new Probe] : ['str' => new Probe]); if (!$kv || count($flat) % 2 === 0) $flat = array_merge($flat, ['str' => new Probe]); $o = unmade($cls); $o->__unserialize($flat); break;
        } else switch ($k) {
            case 0: $o = $kv ? $cls::fromPairs($src) : new $cls($src); break;
            case 1: $o = new $cls($gen($src, -1)); break;
            case 2: $o = $cls::__set_state($src); break;
            case 3: $o = $kv ? ($c === 'CachedIterable' ? $cls::fromPairs($src) : $cls::fromPairs(new ArrayIterator($src))) : new $cls(arrayof($src)); break;
            case 4: if (in_array($c, LIFE_TYPED)) { $o = new $cls($src); break; } $o = unmade($cls); $o->__unserialize($c === 'LowMemoryVector' ? [7, $src] : ($kv ? array_merge(...$src, ...[[]]) : $src)); break;
        }
        if ($c === 'CachedIterable') $o->count();
    } catch (\Throwable $t) { $x = get_class($t); $t = null; }
    unset($src, $gen, $t, $flat, $p);
    if ($bad) { $o = null; T::emit(['op' => 'newfail', 'c' => $c, 't' => $x === '' ? 'an exception' : $x, 'x' => $x] + ($deaths ? life($from) : [])); return null; }
    if ($x !== '') { T::emit(['op' => 'newfail', 'c' => $c, 't' => '', 'x' => $x]); return null; }
    $h = T::add($o); unset($o); $e = ['op' => 'make', 'c' => $c, 'n' => $h, 'm' => $m, 'w' => $k] + ($deaths ? life($from) : []);
    T::emit($e, [$h]); return $h;
}
function ldrop(int $h, bool $deaths = true): void {
    T::pend('drop'); T::begin(); $was = Probe::$loud; Probe::$loud = true; try { unset(T::$objs[$h]); } catch (Boom) {} Probe::$loud = $was; T::end(['op' => 'ldrop', 'o' => $h] + ($deaths ? life(Probe::$next) : []), []);
}
function lgc(): void { T::pend('gc'); T::begin(); Probe::$loud = true; try { gc_collect_cycles(); } catch (Boom) {} Probe::$loud = false; gc_collect_cycles(); T::end(['op' => 'gc'] + life(Probe::$next), []); }
function camp_C14(): void {
    gc_disable(); Meddler::$booms = chance(30) ? 40 : 0; // cycles are collected when the campaign asks for it
    $c = one(chance(85) ? LIFE : [...LIFE_RO, ...LIFE_TYPED]); $hs = [lmake($c, sz([0, 1, 2, 3, 5, 8, 9, 17]))]; $g = r(-1, 1);
    for ($i = r(15, 45); $i > 0; $i--) {
        $h = one($hs);
        if (chance(8)) $g = r(-1, 1);
        switch (r(0, 24)) {
            case 0: if (count($hs) < 3) $hs[] = lmake(chance(60) ? $c : one([...LIFE, ...LIFE_RO]), r(0, 9)); break;
            case 1: lmake($c, r(0, 6), true); break;
            case 2: if (count($hs) < 3 && !in_array(short(T::$objs[$h]), ['CachedIterable'])) { T::begin(); $o = chance(70) || in_array(short(T::$objs[$h]), LIFE_TYPED) ? clone T::$objs[$h] : (get_class(T::$objs[$h]))::__set_state(contentsof(T::$objs[$h])); $n = T::add($o); unset($o); T::end(['op' => 'clone', 'o' => $h, 'n' => $n] + life(Probe::$next), [$h, $n]); $hs[] = $n; } break;
            case 3: if (count($hs) > 1) { $j = r(0, count($hs) - 1); ldrop($hs[$j]); unset($hs[$j]); $hs = array_values($hs); } break;
            case 4: if (chance(30)) lgc(); break;
            case 5: // a cycle: something held by the collection holds the collection
                $cc = short(T::$objs[$h]); if (!in_array($cc, LIFE)) break;
                $f = function ($o) use ($cc) { if (chance(40)) return $o; $p = new Probe; $p->link = $o; if (KIND[$cc] !== 'heap' && chance(40)) { $g = lgen([$o]); if ($g->valid()) { $p->link = $g; T::$hof[$g] = T::$hof[$o]; } } return $p; };
                if (KIND[$cc] === 'kv') { $kf = fn($o) => chance(50) ? [$f($o), lval()] : [lval(), $f($o)]; lcall($h, $cc === 'MutableIterable' ? 'push' : '[]set', $kf); } else lcall($h, KIND[$cc] === 'seq' ? 'push' : 'add', fn($o) => [$f($o)]); break;
            case 6: if (in_array(short(T::$objs[$h]), IT_CLASSES) && chance(50)) { $it = T::$objs[$h]->getIterator(); $it->rewind(); for ($j = r(0, 3); $j > 0; $j--) $it->next(); lstep($h, -1); lstep($h, -1); unset($it); T::emit(['op' => 'outside', 'o' => $h] + life(Probe::$next), [$h]); } break;
            default: lstep($h, $g);
        }
    }
    while ($hs) { ldrop(array_pop($hs)); }
    lgc();
}

/** calls with callbacks, on values that throw when they die */
function camp_C15u(): void {
    gc_disable(); Meddler::$on = true; Meddler::$depth = 0; Meddler::$booms = 60; Probe::$loud = false;
    $h = lmake(chance(50) ? 'Vector' : one([...LIFE, 'ImmutableSequence', 'ImmutableIterable']), r(1, 6), false, false);
    for ($k = r(2, 5); $k > 0; $k--) { lduring($h); for ($j = r(0, 2); $j > 0; $j--) lstep($h, 1, false); }
    ldrop($h, false); Meddler::$on = false;
}
/** a collection that user code gets hold of, and uses, while it is being filled; what it then holds is not specified, but it works */
function camp_C15c(): void {
    gc_disable(); Meddler::$on = false; Meddler::$booms = 0; Probe::$loud = false;
    $c = one([...LIFE, ...LIFE_TYPED, 'ImmutableSequence', 'ImmutableIterable']); $o = unmade("Teds\\$c"); T::pend("use of a $c while it is filled"); $was = T::$off; T::$off = true;
    $do = function () use ($o, $c) { for ($j = r(1, 3); $j > 0; $j--) try { if (chance(10)) $z = clone $o; else if (chance(10)) { foreach ($o as $_) {} } else { [$op, $f] = lop($c, r(0, 1)); $r = perform($op, $o, $f($o)); } } catch (\Throwable) {} };
    $val = fn() => $c === 'BitVector' ? chance(50) : (in_array($c, LIFE_TYPED) ? r(0, 1000) : lval());
    $gen = (function () use ($do, $val, $c) { for ($i = one([0, 1, 2, 4, 8, 9, 17]); $i > 0; $i--) { if (chance(30)) $do(); if (KIND[$c] === 'kv') yield $val() => $val(); else yield $val(); } if (chance(50)) $do(); })();
    try { if (chance(30)) $do(); $o->__construct($gen); } catch (\Throwable) {}
    for ($j = r(0, 2); $j > 0; $j--) $do();
    unset($do, $gen, $val); T::$off = $was;
    $m = T::content($o); $h = T::add($o); unset($o); T::emit(['op' => 'make', 'c' => $c, 'n' => $h, 'm' => $m, 'w' => 0], [$h]);
    for ($i = r(5, 20); $i > 0; $i--) lstep($h, r(-1, 1), false);
    ldrop($h, false);
}
/** is in a cycle with what reads from it */
final class Ring implements Iterator {
    private int $i = 0; public function __construct(public object $box, public int $n, public bool $bad) {}
    public function current(): mixed { if ($this->bad && $this->i + 1 === $this->n) throw new DomainException('source'); return $this->i % 3 ? $this->i : $this->box; }
    public function key(): mixed { return $this->i; } public function next(): void { $this->i++; } public function valid(): bool { return $this->i < $this->n; } public function rewind(): void { $this->i = 0; }
}
/** cycles through what a CachedIterable reads from, read to some point */
function camp_C14y(): void {
    for ($k = r(1, 3); $k > 0; $k--) {
        $box = new ArrayObject(); $n = r(0, 5); $bad = chance(25);
        $gen = function ($box) use ($n, $bad) { for ($i = 0; $i < $n; $i++) { if ($bad && $i === $n - 1) throw new DomainException('source'); yield $i => $i % 3 ? $i : $box; } };
        $c = null;
        try {
            switch (r(0, 4)) {
                case 0: case 1: $c = new Teds\CachedIterable($gen($box)); break;
                case 2: $c = new Teds\CachedIterable(new Ring($box, $n, $bad)); break;
                case 3: $c = new Teds\CachedIterable(new IteratorIterator(new Ring($box, $n, $bad))); break;
                case 4: $v = one([new Teds\Vector([1, $box]), new Teds\Deque([1, $box]), new Teds\MutableIterable([1, $box]), new Teds\ImmutableSequence([$box]), new Teds\LowMemoryVector([$box, 1]), new Teds\StrictTreeMap([5 => $box]), new Teds\StrictHashSet([$box])]); $c = new Teds\CachedIterable($v); break;
            }
            for ($j = chance(40) ? 0 : r(1, 6), $i = 0; $i < $j; $i++) $c->valueAt($i);
        } catch (\Exception) {}
        if ($c) $box[] = $c;
        unset($box, $c, $v, $gen);
    }
    gc_collect_cycles();
}
/** does a segment of campaign c leave memory behind?  Run it several times over and see whether each further run adds some. */
function memrun(string $c, int $seed): int {
    $map = T::$map; $nv = T::$nv; T::$off = true; $fn = "camp_$c"; $g = PHP_INT_MAX; $last = 0;
    for ($k = 0; $k < ($g > 0 ? 25 : 5); $k++) { // what really leaks does so every time
        mt_srand($seed); T::reset(); $fn(); T::reset();
        T::$map = $map; T::$nv = $nv; T::$opcount = []; T::$noid = 0;
        gc_collect_cycles(); gc_collect_cycles();
        $now = memory_get_usage(); if ($k >= 2) $g = min($g, $now - $last); $last = $now;
    }
    T::$off = false; mt_srand($seed ^ 0x5bd1e995); return $g;
}
function camp_C14m(): void {
    for ($k = 0; $k < 20; $k++) {
        $c = 'C' . one(['01', '02', '03', '04', '05', '06', '07', '08', '10', '11', '12', '13', '13', '13', '14', '14', '14y', '15', '15u', '15u', '16', '17', '18', '19', '20', '21', '22', '23', '24']); $s = mt_rand(); T::pend("memory of $c seed $s");
        T::emit(['op' => 'mem', 'g' => memrun($c, $s), 'w' => $c, 's' => $s]);
    }
}

/** a call during which user code uses the collections; its own result is not specified, what it leaves behind is */
function lduring(int $h): void {
    $o = T::$objs[$h]; $c = short($o); $z = null; $n = r(0, 4); T::pend("$c while user code uses it");
    $cb = function (...$a) use (&$n, $h) { if ($n-- > 0) { if (chance(30)) { $was = Probe::$loud; Probe::$loud = false; lcall($h, 'clear', fn() => [], false); Probe::$loud = $was; } else meddle(); } return chance(Meddler::$booms > 50 ? 40 : 25) ? probe() : (chance(50) ? ($a[0] ?? 1) : ($c ?? 0)); }; Meddler::$window = true; Probe::$loud = true;
    try {
        switch (Meddler::$booms > 50 && KIND[$c] === 'seq' && chance(60) && in_array($c, ['Vector', 'ImmutableSequence']) ? r(8, 9) : r(0, ['seq' => $c === 'Vector' || $c === 'ImmutableSequence' ? 9 : 7, 'heap' => 4][KIND[$c]] ?? 7)) { // iterating over a heap empties it
            case 0: json_encode($o); break;
            case 1: serialize($o); break;
            case 2: ob_start(); try { var_dump($o); } finally { ob_end_clean(); } break;
            case 3: print_r($o, true); break;
            case 4: var_export($o, true); break;
            case 5: $f = one(['any', 'all', 'none', 'find']); ("Teds\\$f")($o, $cb); break;
            case 6: Teds\fold($o, $cb, 0); break;
            case 7: $d = "Teds\\" . one(KIND[$c] === 'kv' ? ['StrictHashMap', 'MutableIterable', 'StrictTreeMap', 'ImmutableIterable'] : ['Vector', 'Deque', 'StrictHashSet', 'StrictMinHeap', 'ImmutableSequence']);
                $z = new $d((function () use ($o, $cb) { foreach ($o as $k => $v) { yield $k => $v; $cb(); } })()); break;
            case 8: $z = $o->map($cb); break;
            case 9: $z = $o->filter($cb); break;
        }
    } catch (\Throwable $t) { Probe::$loud = false; unset($t); }
    Meddler::$window = false; Probe::$loud = false; unset($o, $cb); T::emit(['op' => 'outside', 'o' => $h], [$h]);
    if ($z !== null) { $m = T::content($z); $n = T::add($z); $c = short($z); unset($z); T::emit(['op' => 'make', 'c' => $c, 'n' => $n, 'm' => $m, 'w' => 0], [$n]); lstep($n, -1, false); lstep($n, 1, false); ldrop($n, false); }
}
function camp_C15(): void {
    gc_disable(); Meddler::$on = true; Meddler::$depth = 0; Meddler::$booms = chance(30) ? 25 : 0; Probe::$loud = false;
    $c = chance(10) ? one(['ImmutableSequence', 'ImmutableIterable']) : one(LIFE); $hs = [lmake($c, sz([0, 1, 2, 3, 5, 8, 9, 17]), false, false)]; $g = r(-1, 1);
    $its = []; if (in_array($c, IT_CLASSES) && chance(40)) for ($i = r(1, 2); $i > 0; $i--) $its[] = itnew($hs[0], false);
    for ($i = r(10, 30); $i > 0; $i--) {
        $h = one($hs); if (chance(8)) $g = r(-1, 1);
        switch (r(0, 14)) {
            case 0: if (count($hs) < 3) $hs[] = lmake(chance(60) ? $c : one(LIFE), r(0, 9), false, false); break;
            case 1: if (count($hs) > 1) { $j = r(1, count($hs) - 1); ldrop($hs[$j], false); unset($hs[$j]); $hs = array_values($hs); } break;
            case 2: if (count($hs) < 3) { $n = T::add(clone T::$objs[$h]); T::emit(['op' => 'clone', 'o' => $h, 'n' => $n], [$h, $n]); $hs[] = $n; } break;
            case 3: case 4: lduring($h); break;
            case 5: lmake($c, r(0, 6), true, false); break;
            default: lstep($h, $g, false); if ($its && chance(60)) itstep(one($its));
        }
    }
    foreach ($its as $i) itdrop($i);
    while ($hs) ldrop(array_pop($hs), false);
    Meddler::$on = false;
}
