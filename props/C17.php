<?php
// The iterable functions against the PHP code of the README.
namespace Poly {
    function any(iterable $iterable, ?callable $callback = null): bool {
        foreach ($iterable as $v) { if ($callback !== null ? $callback($v) : $v) { return true; } }
        return false;
    }
    function all(iterable $iterable, ?callable $callback = null): bool {
        foreach ($iterable as $v) { if (!($callback !== null ? $callback($v) : $v)) { return false; } }
        return true;
    }
    function none(iterable $iterable, ?callable $callback = null): bool { return !any($iterable, $callback); }
    function fold(iterable $iterable, callable $callback, mixed $initial): mixed {
        foreach ($iterable as $value) { $initial = $callback($initial, $value); }
        return $initial;
    }
    function find(iterable $iterable, callable $callback, mixed $default = null): mixed {
        foreach ($iterable as $value) { if ($callback($value)) { return $value; } }
        return $default;
    }
    function includes_value(iterable $iterable, mixed $value): bool {
        foreach ($iterable as $other) { if ($other === $value) { return true; } }
        return false;
    }
    function unique_values(iterable $iterable): array {
        $result = [];
        foreach ($iterable as $value) {
            foreach ($result as $r) { if (\strict_eq($r, $value)) { continue 2; } }
            $result[] = $value;
        }
        return $result;
    }
}
namespace {
/** Everything the code under test did that user code can see. */
final class Log17 {
    public array $ev = [];
    public function add(...$e): void { $this->ev[] = $e; }
}
final class LogIter implements Iterator {
    private int $i = 0;
    public function __construct(private Log17 $l, private array $p, private string $where, private int $at) {}
    private function hit(string $w): void {
        // how often valid() is asked, and whether the key is, says nothing
        if ($w !== 'valid' && $w !== 'key') { $this->l->add('it', $w, $this->i); }
        if ($w === $this->where && $this->i >= $this->at) { throw new UserError("from $w() at {$this->i}"); }
    }
    public function current(): mixed { $this->hit('current'); return $this->p[$this->i][1]; }
    public function key(): mixed { $this->hit('key'); return $this->p[$this->i][0]; }
    public function next(): void { $this->hit('next'); $this->i++; }
    public function rewind(): void { $this->hit('rewind'); $this->i = 0; }
    public function valid(): bool { $this->hit('valid'); return $this->i < count($this->p); }
}
final class LogAgg implements IteratorAggregate {
    public function __construct(private Closure $f, private Log17 $l) {}
    public function getIterator(): Traversable { $this->l->add('getIterator'); return ($this->f)(); }
}
function log_gen(Log17 $l, array $p, int $at) {
    try {
        foreach ($p as $i => [$k, $v]) {
            if ($i === $at) { throw new UserError("from the generator at $i"); }
            $l->add('gen', $i);
            yield $k => $v;
        }
        $l->add('gen', 'end');
        if ($at === count($p)) { throw new UserError('from the generator at its end'); }
    } finally { $l->add('gen', 'finally'); }
}
/** A callable whose results are a table indexed by call number. */
final class Boom17 {
    public function __construct(private string $m) {}
    public function __destruct() { throw new UserError($this->m); }
}
final class Cb17 {
    public int $n = 0;
    public int $boomAt = -1;
    public static ?Cb17 $cur = null;
    public function __construct(public Log17 $l, public array $table, public int $throwAt, public ?Closure $act) {}
    public function call(array $args) {
        $i = $this->n++;
        $this->l->add('cb', $args);
        if ($i > 4000) { throw new Fail('the callback was called more than 4000 times'); }
        if ($this->act) { ($this->act)($i); }
        if ($i === $this->throwAt) { throw new UserError("from the callback at $i"); }
        if ($i === $this->boomAt) { return new Boom17("from the destructor of the result at $i"); }
        return $this->table[$i % count($this->table)];
    }
    public function __invoke(...$a) { return $this->call($a); }
    public function method(...$a) { return $this->call($a); }
    public static function stat(...$a) { return self::$cur->call($a); }
    public function __call($n, $a) { return $this->call($a[0] ?? null ? $a : $a); }
    public function &refmethod(...$a) { $this->slot = $this->call($a); return $this->slot; }
    public $slot;
    public function modifying($x, $y = null) { $a = func_get_args(); if (is_array($x)) { $x[] = 1; } elseif (is_string($x)) { $x .= 'zz'; } $y = null; return $this->call($a); }
}
function cb17_stat(...$a) { return Cb17::$cur->call($a); }
function callable17(Src $s, Cb17 $cb, int $how): mixed {
    Cb17::$cur = $cb;
    return match ($how) {
        0 => fn(...$a) => $cb->call($a), 1 => $cb, 2 => [$cb, 'method'], 3 => ['Cb17', 'stat'], 4 => 'Cb17::stat', 5 => 'cb17_stat', 6 => cb17_stat(...),
        7 => [$cb, 'virtual'], 8 => [$cb, 'refmethod'], 9 => [$cb, 'modifying'], 10 => $cb->method(...),
    };
}
return function (Src $s, Ctx $c): void {
    if ($s->int(8) === 7) { c17_arrays($s, $c); return; }
    $keys = new Pool($s, 'niiffssaaoo', 4);
    $vals = new Pool($s, $s->pick(['niiffssaaoo', 'niiffssaaoo', 'ifs', 'nnnis', 'a', 'niiffssaaoor']), 6);
    $m = [];
    $big = $s->chance(1, 8) ? 50 : 8;
    $sel = $s->int(4);
    $distinct = $s->chance(1, 4);
    $long = $s->int(1500) === 1499;
    for ($n = $long ? 200 + $s->int(2000) : $s->size($big); $n > 0; $n--) { $m[] = $long && $s->int(10) ? [count($m), $s->int(3000)] : [$sel !== 1 && $sel !== 2 ? count($m) : ($sel === 1 ? $keys->any() : 'k' . count($m)), no_nested_nan($distinct ? [gen_int($s), gen_str($s), null, false][$s->int(4)] : $vals->any())]; }
    $n = count($m);
    $fn = $s->pick(['any', 'all', 'none', 'find', 'fold', 'includes_value', 'unique_values']);
    $c->label($fn);
    $kind = $s->pickw(['plain' => 5, 'array' => 5, 'logiter' => 3, 'loggen' => 2, 'logagg' => 1, 'class' => 3]);
    $args = [];
    $throwAt = $s->chance(1, 6) ? $s->int($n + 1) : -1;
    $where = $s->chance(1, 3) ? $s->pick(['rewind', 'valid', 'current', 'next', 'key']) : '';
    if ($where === 'key') { $where = ''; }
    $at = $s->int($n + 1);
    $slice = null;
    $cls = $s->pick([Teds\Vector::class, Teds\Deque::class, Teds\ImmutableSequence::class, Teds\LowMemoryVector::class, Teds\StrictHashSet::class, Teds\StrictTreeSet::class, Teds\StrictSortedVectorSet::class, Teds\StrictHashMap::class, Teds\StrictTreeMap::class, Teds\StrictSortedVectorMap::class, Teds\StrictMinHeap::class, Teds\StrictMaxHeap::class]);
    $mk = function (Log17 $l) use ($s, $kind, $m, $where, $at, &$slice, $cls, $c) {
        switch ($kind) {
            case 'logiter': return new LogIter($l, $m, $where, $at);
            case 'loggen': return log_gen($l, $m, $where === '' ? -1 : $at);
            case 'logagg': return new LogAgg(fn() => $where === '' ? log_gen($l, $m, -1) : new LogIter($l, $m, $where, $at), $l);
            case 'class':
                if (str_ends_with($cls, 'Map')) { return $cls::fromPairs($m); }
                return new $cls(array_column($m, 1));
            default:
                if ($slice === null) {
                    $b = count($s->log);
                    [$o, $k] = make_source($s, $m, $kind === 'array' ? 'array' : null);
                    $slice = array_slice($s->log, $b);
                    $c->label($k);
                    return $o;
                }
                return make_source(Src::replay($slice), $m, $kind === 'array' ? 'array' : null)[0];
        }
    };
    if ($kind !== 'plain' && $kind !== 'array') { $c->label($kind === 'class' ? $cls : $kind); }
    $results = [];
    for ($k = 1 + $s->int(4); $k > 0; $k--) {
        $results[] = $s->pick([false, true, null, 0, 1, '', '0', 'a', '0.0', 0.0, -0.0, NAN, [], [0], new Obj(), new Teds\Vector(), '00', -1]);
    }
    if ($s->chance(1, 2) && $n > 1) { $results = array_fill(0, max(1, $s->int($n + 1)), $s->pick([false, true, '0', 1])); $results[] = $s->pick([true, false]); }
    $how = $s->int(11);
    $withCb = in_array($fn, ['any', 'all', 'none']) ? $s->pick([0, 1, 1, 1, 2]) : (in_array($fn, ['find', 'fold']) ? 1 : 0);
    $extra = match ($fn) {
        'fold' => [$vals->any()],
        'find' => $s->chance(1, 2) ? [$vals->any()] : [],
        'includes_value' => [no_nested_nan($n && $s->chance(1, 2) ? fresh_copy($m[$s->int($n)][1]) : $vals->probe())],
        default => [],
    };
    $act = $withCb === 1 && $s->chance(1, 4) ? $s->int(4) : -1;
    $actAt = $s->int(max(1, $n));
    $actVals = [$vals->any(), $vals->any()];
    $boomAt = $fn !== 'fold' && $how !== 8 && $s->int(10) === 9 ? $s->int($n + 1) : -1;
    $run = function (string $ns) use ($boomAt, $mk, $fn, $withCb, $extra, $s, $results, $throwAt, $how, $act, $actAt, $actVals, $kind, $cls) {
        $l = new Log17();
        $src = $mk($l);
        $do = null;
        if ($act >= 0) {
            // user code changes what is being iterated
            $do = function (int $i) use (&$src, $act, $actAt, $actVals, $l) {
                if ($i !== $actAt) { return; }
                try {
                    if (is_array($src)) { if ($act < 2) { $src[] = $actVals[0]; } else { array_pop($src); } }
                    elseif ($src instanceof Teds\Vector || $src instanceof Teds\Deque || $src instanceof Teds\LowMemoryVector) {
                        match ($act) { 0 => $src->push(...$actVals), 1 => $src->pop(), 2 => $src->shift(), 3 => $src->clear() };
                    } elseif ($src instanceof Teds\StrictHashSet || $src instanceof Teds\StrictTreeSet) {
                        match ($act) { 0 => $src->add($actVals[0]), 1 => $src->remove($actVals[0]), 2 => $src->add($actVals[1]), 3 => $src->clear() };
                    } elseif ($src instanceof Teds\MutableIterable) {
                        match ($act) { 0 => $src->push($actVals[0], $actVals[1]), 1 => $src->pop(), default => $src->clear() };
                    }
                    $l->add('acted');
                } catch (UnderflowException | RuntimeException $e) { $l->add('act refused'); }
            };
        }
        $cb = new Cb17($l, $results, $throwAt, $do);
        $cb->boomAt = $boomAt;
        $args = [];
        if ($withCb === 1) { $args[] = callable17($s, $cb, $how); } elseif ($withCb === 2) { $args[] = null; }
        foreach ($extra as $x) { $args[] = $x; }
        $f = "$ns\\$fn";
        $r = attempt(fn() => $f($src, ...$args));
        if ($r[0] === 'ok' && is_array($r[1]) && $fn === 'unique_values') { $more = $r[1]; $more[] = 'appended'; $r[] = $more; }
        $w = $GLOBALS['CTX']->takeWarnings();
        // what is left of the source
        $rest = is_array($src) ? $src : ($src instanceof Teds\Collection && !$src instanceof Teds\CachedIterable ? ($src instanceof Teds\Map ? [$src->keys(), $src->values()] : $src->values()) : null);
        if ($src instanceof Iterator && !$src instanceof LogIter) { $rest = attempt(fn() => $src->valid() ? [$src->key()] : false); }
        return [$r, $l->ev, $w, $rest];
    };
    if ($boomAt >= 0) { $c->say("the result at $boomAt throws when it is destroyed"); }
    $c->say("$fn over $kind (" . ($c->verbose ? show($m) : '') . ') callable ' . ($withCb === 1 ? $how : 'none') . ' returns ' . ($c->verbose ? show($results) : '') . ($extra ? ' extra ' . show($extra) : '') . ($throwAt >= 0 ? " throws at $throwAt" : '') . ($where ? " source fails in $where at $at" : '') . ($act >= 0 ? " acts ($act) at $actAt" : ''));
    $c->ops++;
    $c->doing = "Teds\\$fn";
    $a = $run('Teds');
    $e = $run('Poly');
    if ($n) { $c->nt(); }
    $desc = "Teds\\$fn over " . ($kind === 'class' ? $cls : $kind);
    expect_outcome($c, $desc, $e[0], $a[0]);
    if ($e[0][0] !== 'ok' && $e[0][1] !== $a[0][1]) { $c->fail("$desc: expected exception '{$e[0][1]}', got '{$a[0][1]}'"); }
    if (isset($e[0][2]) && !same($e[0][2], $a[0][2])) { $c->fail("$desc: after appending to the result: expected " . show($e[0][2]) . ', got ' . show($a[0][2])); }
    if (!same($e[1], $a[1])) { $c->fail("$desc: user code saw " . show($a[1]) . ', but with the documented code it sees ' . show($e[1])); }
    if ($e[2] !== $a[2]) { $c->fail("$desc: diagnostics " . show($a[2]) . ', expected ' . show($e[2])); }
    if (!same($e[3], $a[3])) { $c->fail("$desc: afterwards the source is " . show($a[3]) . ', expected ' . show($e[3])); }
};
function c17_arrays(Src $s, Ctx $c): void {
    $vals = new Pool($s, 'niiffssaaoo', 6);
    $vars = [];     // variable => array
    $id = [];       // variable => storage number
    $next = 0;
    $mkarr = function () use ($s, $vals) {
        $r = [];
        $f = $s->int(3);
        for ($n = 1 + $s->size(6); $n > 0; $n--) { if ($f) { $r[] = $vals->any(); } else { $r['k' . count($r)] = $vals->any(); } }
        switch ($s->int(5)) {
            case 1: array_shift($r); break;
            case 2: array_pop($r); break;
            case 3: unset($r[array_key_first($r)]); break;
            case 4: foreach ($r as $k => $_) { $x = $r[$k]; unset($r[$k]); $r[$k] = &$x; unset($x); } break;
        }
        return $r;
    };
    while ($s->more(12)) {
        $c->ops++;
        $op = $vars ? $s->int(8) : 0;
        $i = $vars ? $s->int(count($vars)) : 0;
        switch ($op) {
            case 0: $vars[] = $mkarr(); $id[] = $next++; $c->say('new ' . show(end($vars))); break;
            case 1: $vars[] = $vars[$i]; $id[] = $id[$i]; $c->say("copy $i"); break;
            case 2: // through a collection
                $v = match ($s->int(5)) { 0 => (new Teds\Vector([$vars[$i]]))[0], 1 => (new Teds\Deque([$vars[$i]]))->pop(), 2 => (new Teds\StrictHashMap(['a' => $vars[$i]]))['a'], 3 => Teds\find([$vars[$i]], fn() => true), default => Teds\fold([1], fn($x) => $x, $vars[$i]) };
                $vars[] = $v; unset($v); $id[] = $id[$i]; $c->say("through a collection: $i"); break;
            case 3: // write: the storage is shared with others or written in place
                if (array_count_values($id)[$id[$i]] > 1) { $id[$i] = $next++; }
                $vars[$i]['new'] = 1;
                $c->say("write $i");
                break;
            case 4: case 5:
                $j = $s->int(count($vars));
                if (!$vars[$i] || !$vars[$j]) { break; }
                $c->nt();
                $c->doing = 'is_same_array_handle';
                expect_outcome($c, "is_same_array_handle($i, $j)", ['ok', $id[$i] === $id[$j]], attempt(fn() => Teds\is_same_array_handle($vars[$i], $vars[$j])));
                break;
            default:
                $c->nt();
                $a = $vars[$i];
                for ($k = $s->int(3); $k > 0; $k--) { next($vars[$i]); $id[$i] = $next++; }
                $pos = key($vars[$i]);
                $f = $op === 6 ? 'array_value_first' : 'array_value_last';
                $c->doing = $f;
                $e = $a === [] ? null : $a[$op === 6 ? array_key_first($a) : array_key_last($a)];
                expect_outcome($c, $f . '(' . ($c->verbose ? show($a) : '') . ')', ['ok', $e], attempt(fn() => ("Teds\\$f")($vars[$i])));
                $x = ("Teds\\$f")($vars[$i]);
                $x = 'overwritten';
                if (!same($a, $vars[$i]) || key($vars[$i]) !== $pos) { $c->fail("$f changed its argument or moved its internal pointer"); }
                unset($a);
                // the pointer belongs to this variable's own storage now
                break;
        }
    }
}
}
