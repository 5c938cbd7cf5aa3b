<?php
/** a source that counts what is read from it, may throw at an element and may run hooks before one is delivered */
final class LazySrc implements Iterator {
    public int $i = 0; public array $cur = []; public array $keys = []; public array $hooks = [];
    public function __construct(public array $pairs, public int $fail, public string $in) {}
    private function at(string $m): void { if ($this->i === $this->fail && $this->in === $m) throw new DomainException('source'); if (isset($this->hooks[$m][$this->i])) { $h = $this->hooks[$m][$this->i]; unset($this->hooks[$m][$this->i]); $h($this->i); } }
    public function rewind(): void { $this->i = 0; $this->at('rewind'); }
    public function next(): void { $this->i++; $this->at('next'); }
    public function valid(): bool { $this->at('valid'); return $this->i < count($this->pairs); }
    public function current(): mixed { $this->at('current'); $this->cur[$this->i] = ($this->cur[$this->i] ?? 0) + 1; return $this->pairs[$this->i][1]; }
    public function key(): mixed { $this->at('key'); $this->keys[$this->i] = ($this->keys[$this->i] ?? 0) + 1; return $this->pairs[$this->i][0]; }
    public function delivered(): int { return min(count($this->cur), count($this->keys)); }
    public function dup(): int { return $this->cur && max($this->cur) > 1 || $this->keys && max($this->keys) > 1 ? 1 : 0; }
}
final class LazyCount { public int $n = 0; public array $hooks = []; public function delivered(): int { return $this->n; } public function dup(): int { return 0; } }
function lazygen(LazyCount $c, array $pairs, int $fail): Generator { // by value, or by reference and changed afterwards
    for ($i = 0; $i < count($pairs); $i++) {
        if ($i === $fail) throw new DomainException('source');
        $c->n++; if (isset($c->hooks[$i])) { $h = $c->hooks[$i]; unset($c->hooks[$i]); $h($i); }
        yield $pairs[$i][0] => $pairs[$i][1];
    }
    if ($i === $fail) throw new DomainException('source');
}
function &lazyrefgen(LazyCount $c, array $pairs, int $fail): Generator {
    for ($i = 0; $i < count($pairs); $i++) {
        if ($i === $fail) throw new DomainException('source');
        $c->n++; $v = $pairs[$i][1]; if (isset($c->hooks[$i])) { $h = $c->hooks[$i]; unset($c->hooks[$i]); $h($i); }
        yield $pairs[$i][0] => $v; $v = 'changed';
    }
    if ($i === $fail) throw new DomainException('source');
}
function lzval() { return one([null, true, false, 0, 1, 2, 3, 'a', 'b', '1', 1.0, 1.5, [1], [], fixed()['o1'], fixed()['std'], str_repeat(chr(r(97, 99)), 2)]); }
function lz(int $h, $src, string $w, array $a, int $k = -1) {
    $o = T::$objs[$h]; $e = ['op' => 'lz', 'o' => $h, 'w' => $w, 'a' => T::vs($a), 'k' => $k]; T::pend("CachedIterable::$w " . json_encode($e['a']) . " (inner $k)");
    $x = ''; $r = null;
    try { $r = $w === 'gc' ? [gc_collect_cycles(), null][1] : perform($w, $o, $a); } catch (\Throwable $t) { $x = get_class($t); unset($t); }
    T::emit($e + ['x' => $x, 'r' => T::v($r), 'pu' => $src->delivered(), 'dup' => $src->dup()]);
}
function lzit(int $h, $src, int $i, string $w, int $k = -1) {
    $e = ['op' => 'lzit', 'o' => $h, 'i' => $i, 'w' => $w, 'k' => $k]; T::pend("CachedIterable iterator $w (inner $k)"); $x = ''; $r = null;
    try { $r = T::$its[$i][0]->$w(); } catch (\Throwable $t) { $x = get_class($t); unset($t); }
    T::emit($e + ['x' => $x, 'r' => T::v($r), 'pu' => $src->delivered(), 'dup' => $src->dup()]);
}
function lzany(int $h, $src, array $its, array $pairs, int $k = -1): void {
    if ($its && chance(45)) { lzit($h, $src, one($its), pick(['valid' => 4, 'current' => 4, 'key' => 4, 'next' => $k < 0 ? 5 : 0, 'rewind' => $k < 0 ? 1 : 0]), $k); return; }
    $n = count($pairs);
    $w = pick(['isEmpty' => 3, 'keyAt' => 5, 'valueAt' => 5, 'contains' => 3, 'containsValue' => 1, 'containsKey' => 3, 'indexOfKey' => 3, 'indexOfValue' => 3, 'clear' => 1, 'gc' => $k < 0 ? 1 : 0, 'count' => 1, 'count()' => 1, 'toArray' => 1, 'keys' => 1, 'values' => 1, 'toPairs' => 1, 'jsonSerialize' => 1, '(array)' => $k < 0 ? 1 : 0, 'foreach' => 1, 'foreachkv' => 1]);
    $a = match ($w) { 'keyAt', 'valueAt' => [chance(75) ? r(0, max(0, min($n - 1, 4))) : (chance(20) ? one([1 << 32, (1 << 32) + 1, PHP_INT_MAX, (1 << 32) + $n]) : r(0, $n + 1))], 'contains', 'containsValue', 'indexOfValue' => [$n && chance(75) ? (chance(80) ? one($pairs)[1] : alias(one($pairs)[1])) : lzval()], 'containsKey', 'indexOfKey' => [$n && chance(75) ? (chance(80) ? one($pairs)[0] : alias(one($pairs)[0])) : lzval()], default => [] };
    lz($h, $src, $w, $a, $k);
}
function camp_C16(): void {
    $n = sz([0, 1, 2, 3, 4, 5, 8, 9, 17]); $pairs = []; for ($i = 0; $i < $n; $i++) $pairs[] = [chance(60) ? $i : lzval(), lzval()];
    $fail = chance(45) ? r(0, $n) : -1; $kind = one(['it', 'it', 'agg', 'gen', 'refgen']); $gen = $kind === 'gen' || $kind === 'refgen';
    $in = one(['next', 'valid', 'current', 'key', 'rewind']);
    if ($fail === 0 && $in === 'next') $in = 'valid';
    if ($fail === $n && ($in === 'current' || $in === 'key')) $in = 'valid';
    if ($in === 'rewind' && $fail > 0) $in = 'next';
    if ($gen) { $src = new LazyCount; $s = $kind === 'gen' ? lazygen($src, $pairs, $fail) : lazyrefgen($src, $pairs, $fail); }
    else { $src = new LazySrc($pairs, $fail, $in); $s = $kind === 'it' ? $src : new class($src) implements IteratorAggregate { public function __construct(private $s) {} public function getIterator(): Iterator { return $this->s; } }; }
    $e = ['op' => 'lznew', 'c' => 'CachedIterable', 'm' => array_map(fn($p) => [T::v($p[0]), T::v($p[1])], $pairs), 'f' => $fail, 's' => $gen ? 'gen' : 'it', 'z' => $fail === 0 && ($gen || $in === 'rewind') ? 1 : 0];
    T::pend('new CachedIterable'); $x = ''; $o = null;
    try { $o = new Teds\CachedIterable($s); } catch (\Throwable $t) { $x = get_class($t); unset($t); }
    if ($o === null) { T::emit($e + ['x' => $x]); return; }
    unset($s); $h = T::add($o); T::emit($e + ['x' => $x, 'n' => $h]); unset($o);
    $its = []; $hooks = function (int $k) use ($h, $src, &$its, $pairs) { for ($j = r(1, 3); $j > 0; $j--) lzany($h, $src, $its, $pairs, $k); };
    if (chance(35)) for ($j = r(1, 2); $j > 0; $j--) { // the source uses the collection while it is asked for an element
        $i = r(0, $n);
        if ($gen) { if ($i > 0) $src->hooks[$i] = $hooks; }
        else { $m = one(['next', 'valid', 'current', 'key']); if ($i > 0 || $m !== 'next') $src->hooks[$m][$i] = $hooks; }
    }
    for ($j = r(5, 25); $j > 0; $j--) {
        if (count($its) < 3 && chance(20)) { $i = ++T::$nit; T::$its[$i] = [T::$objs[$h]->getIterator()]; $its[] = $i; T::emit(['op' => 'lzitnew', 'o' => $h, 'i' => $i]); }
        lzany($h, $src, $its, $pairs);
    }
    for ($j = 0; $j <= $n + 2; $j++) if ($its) { lzit($h, $src, $its[0], 'valid'); lzit($h, $src, $its[0], 'key'); lzit($h, $src, $its[0], 'next'); }
    lz($h, $src, 'toPairs', []);
}
