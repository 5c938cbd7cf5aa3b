<?php
// Recording: values are interned into a table, calls become events of a trace (one JSON object per line).
error_reporting(E_ERROR); ini_set("display_errors", "1");
set_error_handler(static fn() => true);

/** thrown by an object as it dies */
final class Boom extends Exception { public static function in(?\Throwable $t): bool { for (; $t; $t = $t->getPrevious()) if ($t instanceof Boom) return true; return false; } }
final class Probe { // an object whose death is recorded
    public static int $next = 0; public static array $dead = []; public static array $hooks = [];
    public int $pid; public $link = null; public static bool $loud = false; // may they throw when they die?
    public function __construct() { $this->pid = ++self::$next; }
    public function __destruct() { self::$dead[] = $this->pid; $h = self::$hooks[$this->pid] ?? null; if ($h) { unset(self::$hooks[$this->pid]); $h($this); } }
}

final class T {
    public static $vf; public static $tf; public static $pf;
    public static array $map = []; public static int $nv = 0; public static int $ne = 0;
    public static ?WeakMap $oid = null; public static ?WeakMap $hof = null; public static int $noid = 0;
    public static array $objs = []; public static int $nobj = 0; // handle => collection
    public static array $its = []; public static int $nit = 0;
    public static array $opcount = [];
    public static string $dir = '';
    public static array $stack = []; public static array $keep = []; public static bool $off = false; // off: nothing is recorded
    public static int $large = 0; // about how many entries the collections of this trace get; 0: few

    public static function open(string $dir, string $tag): void {
        self::$dir = $dir;
        self::$vf = fopen("$dir/vals$tag.ndjson", 'w'); self::$tf = fopen("$dir/trace$tag.ndjson", 'w'); self::$pf = fopen("$dir/pending$tag", 'w');
        self::$oid = new WeakMap(); self::$hof = new WeakMap();
        self::v(null); self::v(false); self::v(true);
        for ($i = -2; $i < 10; $i++) self::v($i);
    }
    public static function close(): void {
        fclose(self::$vf); fclose(self::$tf); self::pend('DONE'); fclose(self::$pf);
    }
    public static function pend(string $s): void { if (self::$off) return; rewind(self::$pf); ftruncate(self::$pf, 0); fwrite(self::$pf, $s); fflush(self::$pf); }

    public static function words(int $n): array { return [$n >> 32, ($n >> 16) & 0xffff, $n & 0xffff]; }
    // place of a float in the order of floats, as a 64-bit int (0.0 and -0.0 are the same place)
    private static function place(float $f): array {
        if ($f == 0) return [0, 0, 0];
        $b = unpack('J', pack('E', $f))[1];
        if ($b < 0) $b = -($b & PHP_INT_MAX);
        return self::words($b);
    }
    private static function row($key, array $row): int {
        self::$map[$key] = ++self::$nv;
        if (!self::$off) fwrite(self::$vf, json_encode($row) . "\n");
        return self::$nv;
    }
    /** index of a value in the table */
    public static function v($x): int {
        if (is_int($x)) return self::$map['i' . $x] ?? self::row('i' . $x, ['t' => 'i', 'n' => self::words($x)]);
        if ($x === null) return self::$map['n'] ?? self::row('n', ['t' => 'n']);
        if ($x === false) return self::$map['f'] ?? self::row('f', ['t' => 'f']);
        if ($x === true) return self::$map['t'] ?? self::row('t', ['t' => 't']);
        if (is_string($x)) {
            $k = 's' . $x;
            if (isset(self::$map[$k])) return self::$map[$k];
            $row = ['t' => 's', 'b' => $x === '' ? [] : array_values(unpack('C*', $x))];
            if ((string)(int)$x === $x) $row['z'] = self::words((int)$x);
            return self::row($k, $row);
        }
        if (is_float($x)) {
            $k = 'd' . bin2hex(pack('E', $x));
            if (isset(self::$map[$k])) return self::$map[$k];
            if (is_nan($x)) return self::row($k, ['t' => 'd', 'q' => 'nan', 's' => [0, 0, 0]]);
            if ($x >= 9.2233720368547758e18 || $x < -9.2233720368547758e18) return self::row($k, ['t' => 'd', 'q' => 'huge', 's' => self::place($x), 'tr' => self::words((int)$x)]);
            $fl = floor($x);
            return self::row($k, ['t' => 'd', 'q' => 'fin', 's' => self::place($x), 'fl' => self::words((int)$fl), 'fr' => $fl != $x ? 1 : 0]);
        }
        if (is_array($x)) {
            $e = [];
            foreach ($x as $k => $y) $e[] = [self::v($k), self::v($y)];
            $key = 'a' . json_encode($e);
            return self::$map[$key] ?? self::row($key, ['t' => 'a', 'e' => $e]);
        }
        if (is_object($x)) {
            if ($x instanceof Probe) $key = 'p' . $x->pid;
            else $key = 'o' . (self::$oid[$x] ??= ++self::$noid);
            return self::$map[$key] ?? self::row($key, ['t' => 'o', 'c' => array_values(unpack('C*', get_class($x))), 'h' => spl_object_id($x), 'p' => $x instanceof Probe ? $x->pid : 0, 'k' => self::handle($x instanceof Probe ? $x->link : $x)]);
        }
        $id = get_resource_id($x);
        return self::$map["r$id"] ?? self::row("r$id", ['t' => 'r', 'h' => $id]);
    }
    public static function vs(array $xs): array { $r = []; foreach ($xs as $x) $r[] = self::v($x); return $r; }

    /** contents of a collection, projected onto the abstract state */
    public static function content(object $o): array {
        $c = short($o);
        switch (KIND[$c]) {
            case 'seq': return self::vs($o->toArray());
            case 'set': return self::vs($o->values());
            case 'heap': $r = self::vs($o->values()); sort($r); return $r;
            case 'kv': $r = []; foreach ($o->toPairs() as [$k, $v]) $r[] = [self::v($k), self::v($v)]; return $r;
            case 'map0': return [];
        }
    }
    /** handle of a collection, 0 if it has none */
    public static function handle($x): int { return is_object($x) ? self::$hof[$x] ?? 0 : 0; }
    public static function add(object $o): int { self::$objs[++self::$nobj] = $o; self::$hof[$o] = self::$nobj; return self::$nobj; }
    public static function reset(): void {
        self::$its = []; self::$objs = []; self::$keep = []; self::$nobj = 0; self::$nit = 0;
        Probe::$dead = []; Probe::$hooks = [];
        self::emit(['op' => 'reset']);
    }
    /** an event; ob: handles whose contents are recorded with it */
    public static function emit(array $e, array $ob = []): void {
        if (self::$off) return;
        $o = [];
        foreach ($ob as $h) $o[] = [$h, self::content(self::$objs[$h])];
        $e += ['o' => 0, 'a' => [], 'x' => '', 'r' => 1, 'n' => 0, 'c' => ''];
        $e['ob'] = $o;
        self::$ne++;
        self::$opcount[($e['c'] ?: ($e['o'] && isset(self::$objs[$e['o']]) ? short(self::$objs[$e['o']]) : '')) . '::' . $e['op']] ??= 0;
        self::$opcount[($e['c'] ?: ($e['o'] && isset(self::$objs[$e['o']]) ? short(self::$objs[$e['o']]) : '')) . '::' . $e['op']]++;
        if (self::$stack) self::$stack[count(self::$stack) - 1][] = json_encode($e) . "\n";
        else fwrite(self::$tf, json_encode($e) . "\n");
    }
    /** events of calls made inside a call come after the event of that call */
    public static function begin(): void { self::$stack[] = []; }
    public static function end(array $e, array $ob): void {
        $inner = array_pop(self::$stack);
        self::emit($e, $inner ? [] : $ob);
        foreach ($inner as $l) { if (self::$stack) self::$stack[count(self::$stack) - 1][] = $l; else fwrite(self::$tf, $l); }
    }
}

const KIND = [
    'Vector' => 'seq', 'Deque' => 'seq', 'IntVector' => 'seq', 'LowMemoryVector' => 'seq', 'BitVector' => 'seq', 'ImmutableSequence' => 'seq', 'EmptySequence' => 'seq',
    'StrictHashMap' => 'kv', 'StrictTreeMap' => 'kv', 'StrictSortedVectorMap' => 'kv', 'EmptyMap' => 'map0',
    'StrictHashSet' => 'set', 'StrictTreeSet' => 'set', 'StrictSortedVectorSet' => 'set', 'SortedIntVectorSet' => 'set', 'ImmutableSortedIntSet' => 'set', 'ImmutableSortedStringSet' => 'set', 'EmptySet' => 'set',
    'StrictMinHeap' => 'heap', 'StrictMaxHeap' => 'heap',
    'MutableIterable' => 'kv', 'ImmutableIterable' => 'kv', 'CachedIterable' => 'kv',
];
function short(object $o): string { $c = get_class($o); return str_starts_with($c, 'Teds\\') ? substr($c, 5) : $c; }
