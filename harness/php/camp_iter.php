<?php
const IT_CLASSES = ['Vector', 'Deque', 'IntVector', 'BitVector', 'LowMemoryVector', 'MutableIterable', 'StrictHashMap', 'StrictHashSet', 'StrictTreeMap', 'StrictTreeSet', 'StrictSortedVectorMap', 'StrictSortedVectorSet', 'SortedIntVectorSet'];
function itnew(int $h, ?bool $g = null): int {
    $o = T::$objs[$h]; $g ??= chance(50);
    if ($g) { // a foreach loop, one step at a time
        $it = (function () use ($o) { foreach ($o as $k => $v) yield [$k, $v]; })();
    } else $it = $o->getIterator();
    $i = ++T::$nit; T::$its[$i] = [$it, $g, false, false];
    T::emit(['op' => 'itnew', 'o' => $h, 'i' => $i, 'g' => $g ? 1 : 0]);
    return $i;
}
function itread(int $i): array {
    [$it, $g] = T::$its[$i];
    if (!$it->valid()) return [0, 1, 1];
    if ($g) { [$k, $v] = $it->current(); return [1, T::v($k), T::v($v)]; }
    try { $v = T::v($it->current()); $k = T::v($it->key()); } catch (\Throwable $t) { return [1, 0, 0]; }
    return [1, $k, $v];
}
function itstep(int $i, ?string $op = null): array {
    [$it, $g, $started] = T::$its[$i];
    $op ??= $g ? ($started || chance(20) ? 'itnext' : 'itread') : pick(['itnext' => 10, 'itread' => 4, 'itrewind' => 1]);
    if ($g && $started) $op = 'itnext';
    T::pend("$op");
    if ($op === 'itnext') $it->next(); elseif ($op === 'itrewind') $it->rewind();
    T::$its[$i][2] = true;
    $m = itread($i);
    T::$its[$i][3] = $m[0] === 0;
    T::emit(['op' => $op, 'i' => $i, 'm' => $m]);
    return $m;
}
function itdrop(int $i): void { unset(T::$its[$i]); T::emit(['op' => 'itdrop', 'i' => $i]); }
function itobject(string $c, int $n, ?array &$u, ?int &$mode): int {
    $mode = modes($c); $u = null;
    if (KIND[$c] === 'seq') return newseq($c, $mode, $n);
    if ($c === 'MutableIterable') { $p = []; for ($i = 0; $i < $n; $i++) $p[] = [anyval(), anyval()]; return pairsfrom($c, $p, false); }
    $u = $c === 'SortedIntVectorSet' ? (chance(70) ? range(0, 2 * $n + 4) : range(-40, 40, 7)) : universe(one([0, 0, 0, 1, 2, 3]), 2 * $n + 4);
    $v = array_values(array_filter($u, fn($k) => !(is_float($k) && $k == 0))); shuffle_($v); $v = array_slice($v, 0, $n);
    return KIND[$c] === 'kv' ? pairsfrom($c, array_map(fn($k) => [$k, r(0, 9)], $v), true) : setfrom($c, $v);
}
/** one modification of a collection that iterators are on */
function itmutate(string $c, int $h, ?array $u, int $mode): void {
    $o = T::$objs[$h]; $n = count($o); $ob = chance(25) ? [$h] : [];
    if (KIND[$c] === 'seq') {
        $op = pick(['push' => 4, 'pushFront' => 4, 'insert' => 7, 'pop' => 4, 'popFront' => 5, '[]unset' => 8, '[]set' => 2, 'clear' => 1, '[]push' => 1, 'setSize' => $c === 'Vector' || $c === 'BitVector' ? 2 : 0, 'shrinkToFit' => $c === 'Vector' ? 1 : 0, 'reserve' => $c === 'Vector' ? 1 : 0]);
        $a = seqargs($c, $op, $n, $mode, $o);
        if (in_array($op, ['[]unset', '[]set'])) $a[0] = inoff($n);
        if (chance(95)) foreach ($a as $j => $v) if ($j > 0 || $op !== 'insert') { if ($c === 'IntVector' && !is_int($v) || $c === 'BitVector' && !is_bool($v)) { if ($op !== '[]unset' && !($op === '[]set' && $j === 0) && $op !== 'setSize') $a[$j] = valfor($c, $mode); } }
        if ($op === 'pushFront' || $op === 'insert' || $op === 'push') $a = array_slice($a, 0, 4);
        call($h, $op, $a, $ob);
    } elseif ($c === 'MutableIterable') {
        $op = pick(['push' => 8, 'pop' => 8, 'setKeyAt' => 2, 'setValueAt' => 2, 'setSize' => 2, 'shrinkToFit' => 1, 'clear' => 1]);
        call($h, $op, match ($op) { 'push' => [anyval(), anyval()], 'setKeyAt', 'setValueAt' => [inoff($n), anyval()], 'setSize' => [max(0, $n + r(-2, 2))], default => [] }, $ob);
    } else {
        $set = KIND[$c] === 'set'; $sorted = !str_starts_with($c, 'StrictHash');
        $op = pick(['add' => 10, 'del' => 10, 'pop' => $sorted ? 3 : 0, 'popFront' => $sorted && $c !== 'SortedIntVectorSet' ? 4 : 0, 'clear' => 1]);
        if ($op === 'del' && $n && chance(60)) { $ks = $set ? $o->values() : $o->keys(); $k = one($ks); } else $k = one($u);
        if ($op === 'add') $set ? call($h, 'add', [$k], $ob) : call($h, '[]set', [$k, r(0, 9)], $ob);
        elseif ($op === 'del') $set ? call($h, 'remove', [$k], $ob) : call($h, '[]unset', [$k], $ob);
        else call($h, $op, [], $ob);
    }
}
function camp_C11(): void {
    if (chance(3)) { hashtight(one(['StrictHashMap', 'StrictHashSet']), true); return; }
    $c = one(IT_CLASSES); $h = itobject($c, min(140, sz([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 20])), $u, $mode);
    $its = []; for ($i = r(1, 3); $i > 0; $i--) $its[] = itnew($h);
    if (T::$large) foreach ($its as $i) for ($k = r(0, 140); $k > 0 && itstep($i, 'itnext')[0]; $k--);
    $m = one([20, 50, 80]);
    for ($i = r(20, 60); $i > 0; $i--) {
        if (chance($m)) itmutate($c, $h, $u, $mode);
        else {
            $j = array_rand_($its); itstep($its[$j]);
            // remove exactly the element some iterator is at
            if (chance(15) && !in_array($c, ['BitVector', 'LowMemoryVector', 'MutableIterable'])) removeat($c, $h, $its[$j]);
        }
        if (T::$its[$its[0]][3] && chance(40)) { itdrop($its[0]); $its[0] = itnew($h); } // the end was reached: another one
        if (chance(4)) $its[] = itnew($h);
        if (count($its) > 1 && chance(4)) { $j = array_rand_($its); itdrop($its[$j]); unset($its[$j]); $its = array_values($its); }
        if (chance(2) && ($d = dup($h))) { itmutate($c, $d, $u, $mode); unset(T::$objs[$d]); T::emit(['op' => 'drop', 'o' => $d]); }
    }
    if (chance(40)) { unset(T::$objs[$h]); for ($i = 0; $i < 6; $i++) itstep(one($its)); } // the iterators keep the collection
    else for ($j = 0; $j < count($its); $j++) for ($k = 0; $k < 160 && itstep($its[$j], 'itnext')[0]; $k++);
}
function array_rand_(array $a): int { return r(0, count($a) - 1); }
/** removes the element an iterator has just delivered */
function removeat(string $c, int $h, int $i): void {
    [$it, $g] = T::$its[$i]; if (!$it->valid()) return;
    if ($g) [$k, $v] = $it->current(); else { $k = $it->key(); $v = $it->current(); }
    if (KIND[$c] === 'set') { if (T::$objs[$h]->contains($v)) call($h, 'remove', [$v], []); return; }
    if (KIND[$c] === 'seq') { if (is_int($k) && $k < count(T::$objs[$h])) call($h, '[]unset', [$k], []); return; }
    if (T::$objs[$h]->containsKey($k)) call($h, '[]unset', [$k], []);
}
