<?php
// Campaigns on what holds for every collection alike.
const ENUMS = ['EmptySequence', 'EmptySet', 'EmptyMap'];
const EVERY = [...MUTABLE, ...IMMUTABLE, ...ENUMS];
function mkenum(string $c): int { $h = T::add(constant("Teds\\$c::INSTANCE")); T::emit(['op' => 'enum', 'c' => $c, 'n' => $h], [$h]); return $h; }
/** any collection, empty enums included */
function mkevery(string $c): array { return in_array($c, ENUMS) ? [mkenum($c), range(-1, 4), 0] : mkany($c); }
/** one step on any collection; enums get reads and attempted changes */
function everystep(int $h, ?array $u, int $mode, int $g = 0, ?array $ob = null): void {
    $c = short(T::$objs[$h]);
    if (!in_array($c, ENUMS)) { anystep($h, $u, $mode, $g, $ob); return; }
    $k = one([0, 1, -1, PHP_INT_MAX]);
    $w = match ($c) {
        'EmptySequence' => SEQ_READ + ['set' => 1, 'push' => 1, 'pop' => 1, 'insert' => 1, 'offsetSet' => 1, '[]set' => 1, '[]push' => 1, '[]unset' => 1, 'clear' => 1, 'pushFront' => 1, 'popFront' => 1, 'shift' => 1, 'unshift' => 1, 'offsetUnset' => 1],
        'EmptySet' => ['contains' => 2, 'values' => 1, 'toArray' => 1, 'foreach' => 1, 'foreachkv' => 1, 'count' => 1, 'count()' => 1, 'isEmpty' => 1, 'jsonSerialize' => 1, 'add' => 3, 'remove' => 3, 'clear' => 1],
        'EmptyMap' => ['get' => 2, '[]get' => 1, 'offsetGet' => 1, 'offsetExists' => 1, '[]isset' => 1, '[]empty' => 1, '[]??' => 1, 'containsKey' => 1, 'contains' => 1, 'keys' => 1, 'values' => 1, 'toArray' => 1, 'jsonSerialize' => 1, 'foreach' => 1, 'foreachkv' => 1, 'count' => 1, 'isEmpty' => 1, 'offsetSet' => 2, '[]set' => 2, '[]push' => 1, 'offsetUnset' => 2, '[]unset' => 2, 'clear' => 1],
    };
    unset($w['(array)']);
    $op = pick($w);
    $a = match ($op) { 'set', 'offsetSet', '[]set' => [$k, 1], 'push', 'add', 'remove', 'contains', '[]push', 'pushFront', 'unshift' => [anyval()], 'insert' => [0, 1], '[]??' => [$k, dflt()],
        'get', '[]get', 'offsetGet', 'offsetExists', '[]isset', '[]empty', 'containsKey', '[]unset', 'offsetUnset' => [$k], 'indexOf' => [anyval()], default => [] };
    if ($c === 'EmptyMap' && $op === 'get' && chance(60)) $a[] = dflt();
    call($h, $op, $a, $ob);
}
function methodsof(string $c): array { static $m = []; return $m[$c] ??= array_values(array_filter((new ReflectionClass("Teds\\$c"))->getMethods(), fn($x) => !in_array($x->getName(), ['cases', '__construct']))); }
/** a call with the wrong number or type of arguments */
function badcall(int $h, array $ob): void {
    $o = T::$objs[$h]; $c = short($o);
    for ($try = 0; $try < 50; $try++) {
        $m = one(methodsof($c)); $n = $m->getNumberOfRequiredParameters(); $k = $m->getNumberOfParameters(); $name = $m->getName();
        if (chance(60)) {
            if ($n > 0 && chance(50)) $a = array_fill(0, $n - 1, 0); elseif (!$m->isVariadic()) $a = array_fill(0, $k + 1, 0); else continue;
            $op = 'badargs';
        } else {
            if (!$k) continue; $p = $m->getParameters()[0]; $t = (string)$p->getType(); if ($p->isVariadic()) continue;
            $bad = match ($t) { 'int' => ['x', [], new stdClass, '1x'], 'array', 'iterable', '?callable', 'callable', 'Traversable|array' => [5, 'nofunction!', 1.5, true], 'string' => [[], new stdClass], default => null };
            if (!$bad) continue; $a = array_fill(0, max(1, $n), 0); $a[0] = one($bad); $op = 'badtype';
        }
        $e = ['op' => $op, 'o' => $h, 'm' => $name, 'k' => count($a)]; T::pend("$c::$name with bad arguments"); $x = '';
        try { $m->isStatic() ? ("Teds\\$c")::$name(...$a) : $o->$name(...$a); } catch (\Throwable $t) { $x = get_class($t); unset($t); }
        T::emit($e + ['x' => $x], $ob); return;
    }
}
function throwing(array $vals, int $at, bool $pairs = false) { // a Traversable that throws at element $at
    return one([0, 1]) ? (function () use ($vals, $at, $pairs) { foreach ($vals as $i => $v) { if ($i === $at) throw new DomainException('source'); if ($pairs) yield $v[0] => $v[1]; else yield $v; } throw new DomainException('source'); })()
        : new ThrowIt($vals, $at, $pairs, one(['current', 'valid', 'next', $pairs ? 'key' : 'current']));
}
final class ThrowIt implements Iterator { // throws DomainException at a chosen call
    private int $i = 0;
    public function __construct(private array $v, private int $at, private bool $pairs, private string $where) { if ($where === 'next' && $at === 0) $this->where = 'valid'; }
    public function rewind(): void { $this->i = 0; }
    public function valid(): bool { if ($this->where === 'valid' && $this->i >= $this->at) throw new DomainException('v'); if ($this->i >= count($this->v)) throw new DomainException('end'); return true; }
    public function current(): mixed { if ($this->where === 'current' && $this->i >= $this->at) throw new DomainException('c'); $x = $this->v[$this->i]; return $this->pairs ? $x[1] : $x; }
    public function key(): mixed { if ($this->where === 'key' && $this->i >= $this->at) throw new DomainException('k'); return $this->pairs ? $this->v[$this->i][0] : $this->i; }
    public function next(): void { if ($this->where === 'next' && $this->i >= $this->at - 1) throw new DomainException('n'); $this->i++; }
}
/** a construction that fails */
function failnew(string $c, array $ob): void {
    $cls = "Teds\\$c"; $n = r(0, 9); $kind = r(0, 2); $x = ''; $typed = in_array($c, ['IntVector', 'BitVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet', 'ImmutableSortedStringSet']);
    if (in_array($c, ENUMS) || $c === 'CachedIterable') return;
    $vals = []; for ($i = 0; $i < $n; $i++) $vals[] = match ($c) { 'BitVector' => chance(50), 'IntVector', 'SortedIntVectorSet', 'ImmutableSortedIntSet' => edgeint(r(0, 3)), 'ImmutableSortedStringSet' => str_repeat('s', r(0, 5)) . $i, default => anyval() };
    if ($kind === 0 && $typed) {
        array_splice($vals, r(0, $n), 0, [one(match ($c) { 'BitVector' => [1, null, '1', [], 0.0], 'ImmutableSortedStringSet' => [1, null, true, [], 1.5], default => [null, '1', 1.0, true, []] })]);
        $how = r(0, 2); T::pend("new $c with a bad value");
        try { match ($how) { 0 => new $cls($vals), 1 => new $cls(traversable($vals)), 2 => $cls::__set_state($vals) }; } catch (\Throwable $t) { $x = get_class($t); unset($t); }
        T::emit(['op' => 'newbad', 'c' => $c, 'a' => T::vs($vals), 'x' => $x, 'how' => $how], $ob); return;
    }
    if ($kind === 1 && method_exists($cls, 'fromPairs')) {
        $p = array_map(fn($v) => [$v, 1], $vals); $t = 'UnexpectedValueException';
        if (chance(50)) { array_splice($p, r(0, $n), 0, [one([[], [1], 5, null, 'ab', ['k' => 1, 'v' => 2]])]); $src = chance(50) ? $p : new ArrayIterator($p); } else { $src = throwing($p, r(0, $n)); $t = 'DomainException'; }
        if (is_array($src) && 0) return;
        T::pend("$c::fromPairs with a bad source");
        try { $cls::fromPairs($src); } catch (\Throwable $q) { $x = get_class($q); unset($q); }
        if ($t === 'UnexpectedValueException') $t = $x === 'TypeError' ? 'TypeError' : $t;
        T::emit(['op' => 'newfail', 'c' => $c, 't' => $t, 'x' => $x], $ob); return;
    }
    $kv = KIND[$c] === 'kv'; T::pend("new $c from a throwing source");
    try { new $cls(throwing($kv ? array_map(fn($v) => [$v, 1], $vals) : $vals, r(0, $n), $kv)); } catch (\Throwable $t) { $x = get_class($t); unset($t); }
    T::emit(['op' => 'newfail', 'c' => $c, 't' => 'DomainException', 'x' => $x], $ob);
}
/** anything that must be refused whatever the state is */
function refused(int $h, ?array $u, int $mode, array $ob): void {
    $o = T::$objs[$h]; $c = short($o); $n = count($o);
    switch (r(0, 9)) {
        case 0: case 1: case 2: badcall($h, $ob); break;
        case 3: failnew($c, $ob); break;
        case 4: call($h, one(['->set', '->ref']), [one(['foo', '0', 'size', 'array'])], $ob); break;
        case 5: if ($c !== 'CachedIterable' && !in_array($c, ENUMS)) call($h, '__construct', [one([[], $c === 'BitVector' ? [true] : ($c === 'ImmutableSortedStringSet' ? ['a'] : [1, 2])])], $ob); elseif (!in_array($c, ENUMS)) call($h, '__construct', [[]], $ob); break;
        case 6: $s = in_array($c, ENUMS) ? [] : one([[], $o->__serialize()]); if (plain($s)) call($h, '__unserialize', [$s], $ob); break;
        case 7: if (KIND[$c] !== 'heap' || 1) call($h, 'foreach&', [], $ob); break;
        case 8: if (chance(25)) call($h, one(['[][]push', '[]&push', '[][]push', $o instanceof ArrayAccess ? '[]&push' : '[]??=']), [0, 1], $ob); elseif (isset($o) && in_array('ArrayAccess', class_implements($o))) call($h, one(['[]&', '[][]=']), [KIND[$c] === 'seq' ? someoffset($n) : one($u)], $ob); else call($h, one(['[]get', '[]set', '[]isset', '[]empty', '[]unset', '[]&', '[][]=']), [0, 1], $ob); break;
        case 9: if (in_array($c, [...ENUMS, 'CachedIterable'])) call($h, 'badclone', [], $ob); else call($h, one(['->get', '->isset', '->unset']), [one(['foo', '0', 'array'])], $ob); break;
    }
}
function camp_C20(): void {
    if (chance(6)) { camp_C13(); return; } // data that is refused
    $c = one(chance(85) ? MUTABLE : [...IMMUTABLE, ...ENUMS]); [$h, $u, $mode] = mkevery($c); $ob = [$h];
    $its = []; if (in_array($c, IT_CLASSES) && chance(45)) { $its[] = itnew($h); for ($i = one([0, 0, 1, 2, 5]); $i > 0; $i--) itstep($its[0], 'itnext'); }
    for ($i = r(15, 50); $i > 0; $i--) {
        if (chance(55)) everystep($h, $u, $mode, r(-1, 1), $ob);
        elseif (chance(60)) refused($h, $u, $mode, $ob);
        else switch (KIND[$c]) { // what cannot be done in this state
            case 'seq': $n = count(T::$objs[$h]); if (in_array($c, ENUMS)) break;
                if (($c === 'IntVector' || $c === 'BitVector') && chance(45)) { // something wrong among the values
                    $vs = seqvals($c, $mode); array_splice($vs, r(0, count($vs)), 0, [badfor($c)]); $op = one(['insert', 'insert', 'push', 'pushFront', 'unshift', $c === 'IntVector' ? 'pushInts' : 'pushBits']);
                    call($h, $op, $op === 'insert' ? [r(0, $n), ...$vs] : $vs, $ob); break;
                }
                $op = one(['get', 'set', '[]get', '[]set', 'offsetGet', 'offsetSet', '[]unset', 'offsetUnset', 'insert', 'first', 'last', 'pop', 'popFront', 'shift', 'setSize']);
                if ($op === 'setSize' && $c !== 'Vector' && $c !== 'BitVector') $op = 'set';
                $bad = one([-1, $n, $n + 1, PHP_INT_MAX, PHP_INT_MIN, 1 << 32]); $v = chance(40) && ($c === 'IntVector' || $c === 'BitVector') ? badfor($c) : valfor($c, $mode);
                call($h, $op, match ($op) { 'get', '[]get', 'offsetGet', '[]unset', 'offsetUnset' => [$bad], 'insert' => [$bad === $n ? $n + 1 : $bad, $v], 'set', '[]set', 'offsetSet' => [$bad, $v], 'setSize' => [one([-1, PHP_INT_MIN])], default => [] }, $ob); break;
            case 'set': if ($c === 'SortedIntVectorSet') call($h, one(['add', 'remove']), [one([null, '1', 1.0, true, []])], $ob); elseif (method_exists(T::$objs[$h], 'first')) call($h, one(['first', 'last']), [], $ob); break;
            case 'heap': heapcall($h, one(['top', 'extract', 'next', 'current']), [], $ob); break;
            case 'kv': if (str_ends_with($c, 'Map')) call($h, one(['get', '[]get', 'offsetGet', '[]push']), [one($u)], $ob);
                else { $n = count(T::$objs[$h]); $bad = one([-1, $n, $n + 1, PHP_INT_MAX, PHP_INT_MIN]); $op = one($c === 'MutableIterable' ? ['keyAt', 'valueAt', 'setKeyAt', 'setValueAt', 'setSize'] : ['keyAt', 'valueAt', 'clear']); call($h, $op, match ($op) { 'keyAt', 'valueAt' => [$bad], 'setSize' => [one([-1, PHP_INT_MIN])], 'clear' => [], default => [$bad, 1] }, $ob); } break;
        }
        if ($its && chance(35)) itstep($its[0]);
    }
}
/** mutators of the interfaces, with arguments that would do for a class that can be changed */
function attempt(int $h, array $ob): void {
    $o = T::$objs[$h]; $c = short($o); $n = count($o); $i = one([0, 1, $n, $n - 1, -1]); $v = one([1, 'z', true, null, [1]]); $k = KIND[$c] === 'map0' ? anyval() : (chance(60) ? $i : offsetval($n));
    $w = match (KIND[$c]) {
        'seq' => ['set' => [$i, $v], 'push' => [$v], 'pop' => [], 'pushFront' => [$v, $v], 'popFront' => [], 'shift' => [], 'unshift' => [$v], 'insert' => [$i, $v], 'clear' => [], 'offsetSet' => [$k, $v], '[]set' => [$k, $v], '[]push' => [$v], 'offsetUnset' => [$k], '[]unset' => [$k], '[]&' => [$k], '[][]=' => [$k], '[]??=' => [$k, $v], '[][]push' => [], '[]&push' => []],
        'set' => ['add' => [$v], 'remove' => [$n ? one($o->values()) : $v], 'clear' => []], 'map0' => ['[]set' => [$k, $v], 'offsetSet' => [$k, $i], '[]unset' => [$k], 'offsetUnset' => [$k], 'clear' => [], '[]push' => [$v], '[]&' => [$k], '[][]=' => [$k], '[]??=' => [$k, $v], '[]+=' => [$k, $v, 1], '[][]push' => [], '[]&push' => []],
        default => ['clear' => []],
    };
    $op = one(array_keys($w)); call($h, $op, $w[$op], $ob);
}
/** changes values that were passed in, or that were handed out */
function outside(int $h, array $ob): void {
    $o = T::$objs[$h]; $c = short($o); T::pend("outside changes to $c");
    $ms = array_filter(['toArray', 'values', 'keys', 'toPairs', 'jsonSerialize', '__serialize', '(array)', 'mangled', 'iterator', 'iterate'], fn($m) => $m[0] === '(' || $m === 'mangled' || ($m === 'iterator' && $o instanceof IteratorAggregate) || $m === 'iterate' || method_exists($o, $m));
    $m = one(array_values($ms)); if (in_array($c, ENUMS) && in_array($m, ['(array)', 'mangled'])) $m = 'values';
    try {
        if ($m === 'iterate') { if (KIND[$c] !== 'heap') foreach ($o as $k => $v) { $r = &$v; if (is_array($r)) $r['new!'] = 1; else $r = 'changed'; unset($r); $k = 0; } }
        elseif ($m === 'iterator') { $it = $o->getIterator(); $it->rewind(); for ($k = 0; $k < 3 && $it->valid(); $k++) { $v = $it->current(); $r = &$v; $r = 5; unset($r); $it->next(); } }
        else { $x = $m === '(array)' ? (array)$o : ($m === 'mangled' ? get_mangled_object_vars($o) : $o->$m()); foreach ($x as &$y) { if (is_array($y)) { foreach ($y as &$z) $z = 'changed'; unset($z); $y['new!'] = 3; } else $y = 'changed'; } unset($y); $x['new!'] = 1; unset($x[0]); ksort($x); }
    } catch (\TypeError $t) { unset($t); } // toArray() with keys that cannot be array keys
    T::emit(['op' => 'outside', 'o' => $h, 'how' => $m], $ob);
}
/** a collection built from something that is changed afterwards */
function fromchanging(string $c): ?int {
    $cls = "Teds\\$c"; $n = r(0, 6); $typed = ['IntVector' => fn() => edgeint(r(0, 3)), 'BitVector' => fn() => chance(50), 'SortedIntVectorSet' => fn() => r(-9, 9), 'ImmutableSortedIntSet' => fn() => r(-999, 999), 'ImmutableSortedStringSet' => fn() => 's' . r(0, 30)];
    $kv = KIND[$c] === 'kv'; $f = $typed[$c] ?? fn() => one([r(0, 9), 'a' . r(0, 9), [r(0, 3)], 1.5]);
    $vals = []; for ($i = 0; $i < $n; $i++) $vals[] = $f();
    $m = $kv ? array_map(fn($i) => [T::v($i), T::v($vals[$i])], array_keys($vals)) : T::vs($vals);
    T::pend("make $c from something that changes"); $k = r(0, 4); $src = $vals;
    if ($c === 'CachedIterable' && $k !== 0) $k = 0; // reads lazily
    switch ($k) {
        case 0: foreach ($src as &$y) $refs[] = &$y; unset($y); $o = new $cls($src); foreach ($refs ?? [] as &$y) $y = 'changed'; unset($y); break;
        case 1: $s = new ArrayObject($src); $o = new $cls($s); foreach ($src as $i => $_) $s[$i] = 'changed'; break;
        case 2: $s = new Teds\Vector($src); $o = new $cls($s); foreach ($src as $i => $_) $s[$i] = 'changed'; $s->push(1); break;
        case 3: $s = $kv ? array_map(null, array_keys($src), $src) : $src; foreach ($s as &$y) { $refs[] = &$y; if ($kv) { foreach ($y as &$z) $refs2[] = &$z; unset($z); } } unset($y); $o = $cls::__set_state($s); foreach ($refs ?? [] as &$y) $y = 'changed'; unset($y); foreach ($refs2 ?? [] as &$y) $y = 'changed'; unset($y); break;
        case 4: if ($kv) { $s = array_map(null, array_keys($src), $src); foreach ($s as &$y) { foreach ($y as &$z) $refs2[] = &$z; unset($z); } unset($y); $o = $cls::fromPairs($s); foreach ($refs2 ?? [] as &$y) $y = 'changed'; unset($y); }
            else { $o = new $cls((function () use (&$src) { foreach ($src as $i => &$y) { yield $y; $y = 'changed'; } })()); } break;
    }
    $h = T::add($o); T::emit(['op' => 'make', 'c' => $c, 'n' => $h, 'm' => $m, 'w' => $k], [$h]); return $h;
}
function camp_C21(): void {
    $c = one([...IMMUTABLE, ...IMMUTABLE, ...ENUMS, 'ImmutableSequence']);
    $u = range(-1, 4); $mode = 0;
    if (!in_array($c, ENUMS) && chance(25)) { $h = fromchanging($c); $u = $c === 'ImmutableSortedStringSet' ? ['s1', 's2', 'x'] : $u; } else [$h, $u, $mode] = mkevery($c);
    $hs = [$h];
    for ($i = r(10, 40); $i > 0; $i--) {
        $x = one($hs);
        switch (r(0, 5)) {
            case 0: case 1: attempt($x, $hs); break;
            case 2: refused($x, $u, $mode, $hs); break;
            case 3: outside($x, $hs); break;
            case 4: everystep($x, $u, $mode, 0, $hs); break;
            case 5: if (count($hs) < 3 && !in_array($c, ENUMS) && chance(40) && ($z = copyof($x))) $hs[] = $z; break;
        }
    }
}
function camp_C22(): void {
    $c = one(['Vector', 'Vector', 'Deque', 'IntVector', 'BitVector', 'LowMemoryVector', 'MutableIterable', 'StrictMinHeap', 'SortedIntVectorSet', 'StrictHashSet', 'StrictTreeMap', 'StrictSortedVectorMap', 'StrictHashMap']);
    [$h, $u, $mode] = mkany($c); $o = T::$objs[$h]; $big = chance(8); if ($u && $big) $u = [...$u, ...range(100, 400)];
    for ($k = r(1, 4); $k > 0; $k--) {
        $g = one([2, 1, -1, -1, 0]); if (KIND[$c] === 'heap' || str_ends_with($c, 'Iterable')) $g = $g <=> 0;
        for ($i = $big ? r(30, 120) : r(3, 25); $i > 0; $i--) {
            $n = count($o);
            $q = [$h]; if ($n > 40 && $i % 8) $q = [];
            if (chance(35)) {
                $ops = ['count', 'count()', 'isEmpty', 'count()']; if (method_exists($o, 'capacity')) { $ops[] = 'capacity'; $ops[] = 'capacity'; } if (method_exists($o, 'shrinkToFit')) $ops[] = 'shrink!'; if (method_exists($o, 'reserve')) $ops[] = 'reserve!'; if (method_exists($o, 'setSize')) { $ops[] = 'setSize'; $ops[] = 'setSize'; } if (KIND[$c] !== 'heap') $ops[] = 'iterator_count';
                $op = one($ops);
                call($h, $op, match ($op) { 'reserve!' => [one([0, 1, $n, $n + 1, $n + r(0, 100), 2 * $n, -5, 7, 8])], 'setSize' => $c === 'MutableIterable' || chance(40) ? [sizefor($n, $big)] : [sizefor($n, $big), valfor($c, $mode)], default => [] }, $q);
            } elseif ($big && KIND[$c] === 'seq' && chance(20)) { $a = []; for ($j = r(5, 60); $j > 0; $j--) $a[] = valfor($c, $mode); call($h, one(['push', 'push', 'pushFront', 'push']), $a, $q); }
            else anystep($h, $u, $mode, $g, $q);
        }
    }
    call($h, KIND[$c] === 'kv' ? 'toPairs' : 'values', [], [$h]);
}
function sizefor(int $n, bool $big): int { return one([0, 1, $n, $n + 1, max(0, $n - 1), intdiv($n, 2), intdiv($n, 4), $n + 7, 2 * $n, 8, 9, 64, 65, r(0, $big ? 300 : 40)]); }
const EVERY_READ = ['count', 'count()', 'isEmpty', 'json', 'var_dump', 'print_r', 'var_export', 'iterator_count', 'foreach', 'foreachkv', 'jsonSerialize', '(array)', 'toArray', 'values', 'iterator_to_array', 'keys', 'toPairs', 'first', 'last', 'firstKey', 'lastKey', 'spread'];
function camp_C23(): void {
    $c = one([...MUTABLE, ...IMMUTABLE]); [$h, $u, $mode] = mkany($c); $o = T::$objs[$h];
    $rs = array_values(array_filter(EVERY_READ, fn($m) => match ($m) { 'json' => $o instanceof JsonSerializable, 'spread' => KIND[$c] === 'seq', 'iterator_count', 'foreach', 'foreachkv' => KIND[$c] !== 'heap', 'iterator_to_array' => KIND[$c] === 'seq' || KIND[$c] === 'kv', 'var_dump', 'print_r', 'var_export' => $c !== 'LowMemoryVector' && $c !== 'StrictMinHeap' && $c !== 'StrictMaxHeap', 'toArray' => KIND[$c] !== 'heap', 'count()', '(array)' => true, default => method_exists($o, $m) }));
    for ($k = r(2, 5); $k > 0; $k--) {
        for ($i = r(0, 12); $i > 0; $i--) anystep($h, $u, $mode, r(-1, 1), chance(50) ? [$h] : []);
        for ($i = r(3, 12); $i > 0; $i--) {
            $n = count($o);
            switch (r(0, 9)) {
                case 0: if (KIND[$c] === 'seq') { $j = off($n); call($h, one(['get', '[]get', 'offsetGet', '[]isset', '[]empty', 'offsetExists', 'containsKey']), [$j], chance(30) ? [$h] : []); } break;
                case 1: $vs = contentsof($o); if ($vs) { $x = one($vs); if (KIND[$c] === 'kv') { if (str_ends_with($c, 'Map')) call($h, one(['get', '[]get', 'containsKey', '[]isset']), [$x[0]], []); else call($h, one(['indexOfKey', 'containsKey']), [$x[0]], []); } else { if ($c === 'BitVector' || KIND[$c] === 'heap') break; call($h, 'contains', [$x], []); if (method_exists($o, 'indexOf')) call($h, 'indexOf', [$x], []); } } break;
                case 2: if (($z = copyof($h))) drop($z); break;
                case 3: outside($h, [$h]); break;
                default: $op = one($rs); if ($op === 'json' && !plain(contentsof($o))) break; call($h, $op, [], chance(50) ? [$h] : []);
            }
        }
    }
}
/** anything that can be written between the brackets, near n */
function offsetval(int $n) {
    $k = one([0, 1, $n - 1, $n, $n + 1, -1, -$n, intdiv($n, 2), 2, 3]);
    switch (r(0, 15)) {
        case 0: case 1: case 2: return $k;
        case 3: return $k + one([1 << 32, -(1 << 32), 1 << 33, PHP_INT_MIN, 1 << 31, 1 << 16, 1 << 8, 1 << 62]);
        case 4: return one([PHP_INT_MAX, PHP_INT_MIN, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 32) - 1]);
        case 5: return (float)$k;
        case 6: return $k + one([0.5, 0.25, 0.999, -0.5, -0.999]);
        case 7: return one([-0.0, 0.9, -0.9, 4294967296.0, 4294967297.0, -4294967296.0, 1e15, -1e15, 9007199254740993.0]);
        case 8: case 9: return (string)$k;
        case 10: return one(['4294967296', '4294967297', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551616']);
        case 11: return one(['', 'x', "$k.0", " $k", "$k ", "0$k", "+$k", '-0', '0x1', '1e0', "$k\0", 'true', '1_0', '０']);
        case 12: return chance(50);
        case 13: return one([null, [], [0], fixed()['o1'], fixed()['std'], fixed()['enum'], fixed()['clo']]);
        case 14: return fixed()['res'];
        default: return $k;
    }
}
function camp_C24(): void {
    $c = one(['Vector', 'Deque', 'IntVector', 'BitVector', 'LowMemoryVector', 'ImmutableSequence', 'EmptySequence']);
    if ($c === 'EmptySequence') { $h = mkenum($c); $mode = 0; } else { $mode = modes($c); $h = newseq($c, $mode, sz([0, 1, 2, 3, 4, 5, 8, 9, 17])); }
    for ($i = r(20, 50); $i > 0; $i--) {
        $n = count(T::$objs[$h]); $v = fn() => valfor($c, $mode);
        $op = pick(['[]get' => 4, '[]set' => 3, '[]isset' => 3, '[]empty' => 2, '[]??' => 3, '[]unset' => 2, 'offsetGet' => 3, 'offsetSet' => 2, 'offsetExists' => 2, 'offsetUnset' => 1, '[]&' => 1, '[][]=' => 1, '[]??=' => 2, '[]+=' => 2, '[][]push' => 1, '[]&push' => 1, 'get' => 2, 'set' => 2, 'push' => 2, 'containsKey' => 1, 'insert' => 1]);
        $k = offsetval($n);
        if (in_array($op, ['get', 'set', 'insert']) && !is_int($k) || $op === 'containsKey' && in_array($c, ['ImmutableSequence', 'EmptySequence'])) { $k = offsetval($n); if (!is_int($k)) $k = off($n); }
        if ($op === '[]+=') { plusat($h, $k); continue; }
        call($h, $op, match ($op) { '[]set', 'offsetSet', 'set', 'insert', '[]??=' => [$k, $v()], '[]??' => [$k, dflt()], 'push' => [$v()], default => [$k] });
    }
}
