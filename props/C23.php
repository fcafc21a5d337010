<?php
// Construction gives the same collection from every kind of iterable; the source is traversed once, is not modified, and its exceptions come through.

/** Records every call; may throw a given exception at one of them. */
final class SpyIter implements Iterator {
    public int $i = 0;
    public array $calls = ['rewind' => 0, 'valid' => 0, 'current' => 0, 'key' => 0, 'next' => 0];
    public array $asked = [];
    public ?Throwable $boom = null;
    public string $where = '';
    public int $at = -1;
    public bool $dead = false;
    public bool $after = false;
    public function __construct(public array $pairs) {}
    private function call(string $w): void {
        if ($this->dead) { $this->after = true; }
        $this->calls[$w]++;
        if ($this->boom && $w === $this->where && ($w === 'rewind' || $this->i === $this->at)) { $this->dead = true; throw $this->boom; }
    }
    public function current(): mixed { $this->call('current'); $this->asked[] = $this->i; return $this->pairs[$this->i][1]; }
    public function key(): mixed { $this->call('key'); return $this->pairs[$this->i][0]; }
    public function next(): void { $this->call('next'); $this->i++; }
    public function rewind(): void { $this->call('rewind'); $this->i = 0; }
    public function valid(): bool { $this->call('valid'); return $this->i < count($this->pairs); }
}
/** An Iterator whose count() lies. */
final class LyingIter implements Iterator, Countable {
    private int $i = 0;
    public function __construct(private array $pairs, private int $claim) {}
    public function count(): int { return $this->claim; }
    public function current(): mixed { return $this->pairs[$this->i][1]; }
    public function key(): mixed { return $this->pairs[$this->i][0]; }
    public function next(): void { $this->i++; }
    public function rewind(): void { $this->i = 0; }
    public function valid(): bool { return $this->i < count($this->pairs); }
}
/** Hands out its elements as references and reuses them. */
final class RefIter implements Iterator {
    private int $i = 0;
    private $slot;
    public function __construct(private array $pairs) {}
    public function &current(): mixed { $this->slot = $this->pairs[$this->i][1]; return $this->slot; }
    public function key(): mixed { return $this->pairs[$this->i][0]; }
    public function next(): void { $this->slot = 'reused'; $this->i++; }
    public function rewind(): void { $this->i = 0; }
    public function valid(): bool { return $this->i < count($this->pairs); }
}
final class AnyAgg implements IteratorAggregate {
    public int $n = 0;
    public function __construct(public $inner) {}
    public function getIterator(): Traversable { $this->n++; return $this->inner; }
}
/** By-reference generator that overwrites the variable it yielded. */
function &c23_overwriting(array $pairs) { foreach ($pairs as [$k, $v]) { yield $k => $v; $v = 'overwritten'; $k = 'overwritten'; } }
function c23_delegating(array $pairs, int $cut) { yield from pair_gen(array_slice($pairs, 0, $cut)); yield from new PairIter(array_slice($pairs, $cut)); }

const C23_KINDS = ['spy', 'spyagg', 'spyaggagg', 'lying', 'refiter', 'overwriting', 'delegating', 'make', 'make', 'make', 'make', 'LimitIterator', 'AppendIterator', 'IteratorIterator', 'NoRewindIterator', 'CachingIterator',
    'SplFixedArray', 'SplDoublyLinkedList', 'SplObjectStorage', 'ArrayIterator(object)', 'ArrayObject(object)', 'GeneratorAgg', 'Teds', 'Teds', 'started', 'CallbackFilterIterator', 'MultipleIterator', 'InternalIterator'];
/** @return array{0: iterable, 1: string, 2: ?SpyIter, 3: ?Closure} source, description, its recorder, a check to run afterwards */
function c23_source(Src $s, array $pairs): array {
    $n = count($pairs);
    $list = array_column($pairs, 0) === ($n ? range(0, $n - 1) : []);
    $vals = array_map(fn($p) => $p[1], $pairs);
    $kind = $s->pick(C23_KINDS);
    switch ($kind) {
        case 'spy': $x = new SpyIter($pairs); return [$x, 'Iterator', $x, null];
        case 'spyagg': $x = new SpyIter($pairs); $a = new AnyAgg($x); return [$a, 'IteratorAggregate', $x, fn() => $a->n === 1 ? null : "getIterator() was called {$a->n} times"];
        case 'spyaggagg': $x = new SpyIter($pairs); $a = new AnyAgg($x); $b = new AnyAgg($a); return [$b, 'nested IteratorAggregate', $x, fn() => $a->n === 1 && $b->n === 1 ? null : "getIterator() was called {$a->n} and {$b->n} times"];
        case 'lying': $cl = $s->pick([0, $n + 1, max(0, $n - 1), 1 << 20, -1, PHP_INT_MAX]); return [new LyingIter($pairs, $cl), "Iterator claiming $cl elements", null, null];
        case 'refiter': return [new RefIter($pairs), 'Iterator returning references', null, null];
        case 'overwriting': return [c23_overwriting($pairs), 'generator overwriting what it yielded', null, null];
        case 'delegating': $g = c23_delegating($pairs, $s->int($n + 1)); return [$g, 'delegating generator', null, fn() => $g->valid() ? 'the generator was not finished' : null];
        case 'GeneratorAgg': return [new AnyAgg(pair_gen($pairs)), 'IteratorAggregate of a generator', null, null];
        case 'started': if (!$n) { break; } $g = pair_gen($pairs); $g->current(); return [$g, 'generator at its first element', null, fn() => $g->valid() ? 'the generator was not finished' : null];
        case 'LimitIterator': if (!$n) { break; } return [new LimitIterator(new PairIter([...$pairs, [0, 0]]), 0, $n), 'LimitIterator', null, null];
        case 'AppendIterator': $a = new AppendIterator(); $cut = $s->int($n + 1); $a->append(new PairIter(array_slice($pairs, 0, $cut))); $a->append(new PairIter(array_slice($pairs, $cut))); return [$a, 'AppendIterator', null, null];
        case 'IteratorIterator': return [new IteratorIterator(pair_gen($pairs)), 'IteratorIterator', null, null];
        case 'NoRewindIterator': return [new NoRewindIterator(pair_gen($pairs)), 'NoRewindIterator', null, null];
        case 'CachingIterator': return [new CachingIterator(new PairIter($pairs), 0), 'CachingIterator', null, null];
        case 'CallbackFilterIterator':
            $p = [];
            foreach ($pairs as $q) { if ($s->int(3) === 0) { $p[] = ['skip', new OC()]; } $p[] = $q; }
            return [new CallbackFilterIterator(new PairIter($p), fn($v, $k) => $k !== 'skip' || !$v instanceof OC), 'CallbackFilterIterator', null, null];
        case 'InternalIterator': return [Teds\ImmutableIterable::fromPairs($pairs)->getIterator(), 'InternalIterator', null, null];
        case 'SplFixedArray': if ($list) { $f = SplFixedArray::fromArray($vals); return [$f, $kind, null, fn() => same($f->toArray(), $vals) ? null : 'the SplFixedArray changed']; } break;
        case 'SplDoublyLinkedList': if ($list) { $f = new SplDoublyLinkedList(); foreach ($vals as $v) { $f->push($v); } return [$f, $kind, null, fn() => count($f) === $n ? null : 'the list changed']; } break;
        case 'SplObjectStorage':
            if (!$list) { break; }
            $f = new SplObjectStorage();
            foreach ($vals as $v) { if (!is_object($v) || $f->contains($v)) { break 2; } $f->attach($v); }
            return [$f, $kind, null, null];
        case 'ArrayIterator(object)': case 'ArrayObject(object)':
            $o = new stdClass();
            foreach ($pairs as [$k, $v]) { if (!is_string($k) || $k === '' || $k[0] === "\0" || is_numeric($k) || property_exists($o, $k)) { break 2; } $o->$k = $v; }
            return [$kind[5] === 'I' ? new ArrayIterator($o) : new ArrayObject($o), $kind, null, null];
        case 'Teds':
            if ($list) {
                $cls = $s->pick([Teds\Vector::class, Teds\Deque::class, Teds\LowMemoryVector::class, Teds\ImmutableSequence::class]);
                if ($vals && count(array_filter($vals, 'is_int')) === $n && $s->int(2)) { $cls = Teds\IntVector::class; }
                if ($vals && count(array_filter($vals, 'is_bool')) === $n && $s->int(2)) { $cls = Teds\BitVector::class; }
                $f = new $cls($vals);
                if ($cls === Teds\Deque::class && $n) { for ($i = $s->int(4); $i > 0; $i--) { $f->push($f->shift()); } for ($i = 0; $i < $n; $i++) { $f->shift(); } $f->push(...$vals); }
                return [$f, $cls, null, fn() => same($f->values(), $vals) ? null : "the $cls changed"];
            }
            $m = new MapModel(false);
            foreach ($pairs as [$k, $v]) { if ($m->has($k)) { break 2; } $m->put($k, $v); }
            $f = Teds\StrictHashMap::fromPairs($pairs);
            if (!same($f->toPairs(), $pairs)) { break; }
            return [$f, 'StrictHashMap', null, fn() => same($f->toPairs(), $pairs) ? null : 'the StrictHashMap changed'];
    }
    [$src, $d] = make_source($s, $pairs);
    if (is_array($src)) {
        if ($s->int(3) === 0) { end($src); }
        $pos = key($src);
        $before = deep_canon($src);
        $refs = [];
        foreach ($src as $k => $_) { $refs[$k] = ReflectionReference::fromArrayElement($src, $k) !== null; }
        return [$src, $d, null, function () use (&$src, $before, $refs, $pos) {
            if (deep_canon($src) !== $before) { return 'the array changed'; }
            if (key($src) !== $pos) { return "the array's position changed"; }
            foreach ($refs as $k => $r) { if ($r && ReflectionReference::fromArrayElement($src, $k) === null) { return 'an element is no longer a reference'; } }
            return null;
        }];
    }
    if ($src instanceof Generator) { return [$src, $d, null, fn() => $src->valid() ? 'the generator was not finished' : null]; }
    if ($src instanceof ArrayIterator || $src instanceof ArrayObject) { $b = $src->getArrayCopy(); return [$src, $d, null, fn() => same($src->getArrayCopy(), $b) ? null : "the $d changed"]; }
    if ($src instanceof Teds\ImmutableIterable || $src instanceof Teds\MutableIterable || $src instanceof Teds\CachedIterable) { return [$src, $d, null, fn() => same($src->toPairs(), $pairs) ? null : "the $d changed"]; }
    return [$src, $d, null, null];
}
/** What the collection has to contain, as a list of pairs in order. */
function c23_expected(string $cls, array $pairs): array {
    switch (coll_kind($cls)) {
        case 'pairs': return $pairs;
        case 'seq': $r = []; foreach ($pairs as $i => $p) { $r[] = [$i, $p[1]]; } return $r;
        case 'map': $m = new MapModel(is_sorted_class($cls)); foreach ($pairs as [$k, $v]) { $m->put($k, $v); } return $m->pairs();
        case 'set': $m = new MapModel(is_sorted_class($cls)); foreach ($pairs as [$k, $v]) { $m->put($v, $v); } return array_map(fn($p) => [$p[0], $p[0]], $m->pairs());
        case 'sorted': $m = []; foreach ($pairs as [$k, $v]) { if (!in_array($v, $m, true)) { $m[] = $v; } } usort($m, $cls === Teds\ImmutableSortedStringSet::class ? 'strcmp' : fn($a, $b) => $a <=> $b); $r = []; foreach ($m as $i => $v) { $r[] = [$i, $v]; } return $r;
        default: $m = array_map(fn($p) => $p[1], $pairs); usort($m, fn($a, $b) => ref_compare($a, $b) * ($cls === Teds\StrictMinHeap::class ? 1 : -1)); return array_map(fn($v) => [0, $v], $m);
    }
}
function c23_compare(string $cls, array $exp, $o): ?string {
    if (coll_kind($cls) === 'heap') {
        $h = clone $o;
        foreach ($exp as $i => $p) { if ($h->isEmpty()) { return "runs dry after $i of " . count($exp) . ' elements'; } $v = $h->extract(); if (ref_compare($v, $p[1]) !== 0) { return "extracts " . show($v) . ' instead of ' . show($p[1]); } }
        return $h->isEmpty() ? null : 'has extra elements';
    }
    $got = coll_pairs($o);
    $ok = count($got) === count($exp);
    $keysExact = coll_kind($cls) !== 'map' && coll_kind($cls) !== 'set';
    foreach ($exp as $i => $p) {
        if (!$ok) { break; }
        $ok = ($keysExact ? same($got[$i][0], $p[0]) : canon($got[$i][0]) === canon($p[0])) && (coll_kind($cls) === 'set' ? canon($got[$i][1]) === canon($p[1]) : same($got[$i][1], $p[1]));
    }
    return $ok ? null : 'holds ' . show($got) . ' instead of ' . show($exp);
}
return function (Src $s, Ctx $c): void {
    $cls = ALL_CLASSES[$s->int(count(ALL_CLASSES))];
    $c->label($cls);
    $short = substr($cls, 5);
    $g = new CollGen($s, $c, $cls, $s->pick(['niiffssaaoo', 'i', 's', 'oo', 'b', 'nif']), 8);
    $pairish = $g->kind === 'map' || $g->kind === 'pairs';
    $keymode = $s->int(4);
    $pairs = [];
    $n = $s->int(1500) === 1499 ? $s->pick([255, 520, 1030, 2050]) + $s->int(20) : ($s->chance(1, 6) ? $s->size(130) : $s->size(20));
    for ($i = 0; $i < $n; $i++) {
        $s->mark();
        $k = match ($n > 250 && $keymode === 3 ? 0 : $keymode) { 0, 1 => $i, 2 => "k$i", default => $pairish ? $g->key() : ($s->int(2) ? -$i : "x$i") };
        $pairs[] = [$k, $n > 250 && $s->int(8) && coll_elem_kinds($cls, 'x') !== 'b' ? (coll_elem_kinds($cls, 'x') === 's' ? "s$i" : $i * 7919 % 3001) : $g->val()];
    }
    $elem = coll_elem_kinds($cls, '');
    $badAt = -1;
    if ($elem && $n && $s->int(5) === 4) { // an element that the class refuses
        $badAt = $s->int($n);
        $pairs[$badAt][1] = $s->pick(match ($elem) { 'i' => ['1', 1.0, true, null, [1], new Obj(), 'x'], 'b' => ['1', 1, 0, null, [true], new Obj()], 's' => [1, 1.0, true, null, ['a'], new Obj()] });
    }
    if ($c->verbose) { $c->say("$short of " . show($pairs)); }
    if ($n > 1) { $c->nt(); }
    $exp = $badAt < 0 ? c23_expected($cls, $pairs) : null;
    $serial = [];
    for ($round = 0; $round < 4; $round++) {
        $c->ops++;
        $s->mark();
        $how = $s->pickw(['new' => 8, 'fromPairs' => $pairish ? 5 : 0, 'set_state' => 2, 'throw' => 5]);
        if ($how === 'fromPairs' && $cls === Teds\CachedIterable::class) { $how = 'set_state'; }
        if ($how === 'throw') {
            if ($cls === Teds\CachedIterable::class || $badAt >= 0) { continue; }
            // an exception from the source is the constructor's exception
            $boom = $s->int(2) ? new UserError('boom') : new Error('boom');
            $fp = $pairish && $s->int(3) === 0;
            $items = $fp ? array_map(fn($p) => [0, $p], $pairs) : $pairs;
            $at = $s->int($n + 1);
            $kind = $s->int(4);
            $where = '';
            if ($kind === 0) {
                $src = (function () use ($items, $at, $boom) { foreach ($items as $i => [$k, $v]) { if ($i === $at) { throw $boom; } yield $k => $v; } throw $boom; })();
                $d = "generator throwing at $at";
            } elseif ($kind === 1) {
                $src = new class($boom) implements IteratorAggregate { public function __construct(private $b) {} public function getIterator(): Traversable { throw $this->b; } };
                $d = 'getIterator() throwing';
            } else {
                $src = new SpyIter($items);
                $src->boom = $boom;
                $where = $src->where = $s->pick($at < $n ? ['current', 'next', 'valid', 'rewind', 'key'] : ['valid', 'rewind']);
                $src->at = $at;
                $d = "Iterator throwing in $where at $at";
            }
            $c->doing = "$short " . ($fp ? 'fromPairs' : 'new') . " $d";
            $c->say($c->doing);
            $got = null;
            $o = null;
            try { $o = $fp ? $cls::fromPairs($src) : new $cls($src); } catch (Throwable $t) { $got = $t; }
            if ($got !== $boom) {
                if ($got === null && $where === 'key' && (!$pairish || $fp)) { $m = c23_compare($cls, $exp, $o); if ($m !== null) { $c->fail("$short from an Iterator $m"); } continue; }
                $c->fail("$short: {$c->doing}: the source's exception did not come through: " . ($got ? get_class($got) . ' ' . $got->getMessage() : 'no exception'));
            }
            if ($src instanceof SpyIter && $src->after) { $c->fail("$short: {$c->doing}: went on reading the source after its exception"); }
            continue;
        }
        $spy = $after = null;
        if ($how === 'set_state') {
            $src = $pairish ? $pairs : array_map(fn($p) => $p[1], $pairs);
            if ($s->int(2)) { $r = []; foreach ($src as $x) { if (is_array($x) && $pairish) { $y = $x; $x = $s->int(3) ? $y : ($s->int(2) ? [1 => $y[1], 0 => $y[0]] : immutable($y)); } $r[] = $x; } $src = $r; }
            $d = '__set_state';
            $mk = fn() => $cls::__set_state($src);
        } elseif ($how === 'fromPairs') {
            $items = [];
            foreach ($pairs as $i => $p) {
                $y = $p;
                switch ($s->int(5)) {
                    case 1: $y = [1 => $p[1], 0 => $p[0]]; break;       // stored the other way round
                    case 2: $x = $p[1]; $y[1] = &$x; unset($x); break;  // references
                    case 3: $x = $p[0]; $y[0] = &$x; unset($x); break;
                    case 4: $y = immutable($p); break;
                }
                $items[] = [$s->int(4) ? $i : "k$i", $y];
            }
            [$src, $d, $spy, $after] = c23_source($s, $items);
            $d = "fromPairs $d";
            $mk = fn() => $cls::fromPairs($src);
        } else {
            $items = $pairs;
            if (!$pairish && $s->int(3) === 0) { foreach ($items as $i => $_) { $items[$i][0] = $s->pick([$i, "q$i", 0, null, 1.5]); } } // keys do not matter
            [$src, $d, $spy, $after] = c23_source($s, $items);
            $mk = fn() => new $cls($src);
        }
        $c->doing = "$short from $d";
        $c->say($c->doing);
        $c->label($d);
        $r = attempt($mk);
        if ($badAt >= 0) {
            if ($r[0] !== 'TypeError' && !is_a($r[0], UnexpectedValueException::class, true)) { $c->fail("{$c->doing}: accepted the unacceptable element: " . show_outcome($r)); }
            if ($after && !$src instanceof Generator && !$spy && ($m = $after()) !== null && !str_contains($m, 'generator')) { $c->fail("{$c->doing}: $m"); }
            continue;
        }
        if ($r[0] !== 'ok') { $c->fail("{$c->doing}: " . show_outcome($r)); }
        $o = $r[1];
        if ($cls === Teds\CachedIterable::class) { $o->count(); }
        $m = c23_compare($cls, $exp, $o);
        if ($m !== null) { $c->fail("{$c->doing}: $m"); }
        coll_check($c, $o, "from $d");
        if ($spy) {
            $x = $spy->calls;
            // read once, from start to end; keys only where they mean something
            if ($x['rewind'] !== 1 || $x['next'] !== $n || $x['current'] !== $n || $spy->asked !== ($n ? range(0, $n - 1) : []) || $spy->i !== $n) { $c->fail("{$c->doing}: the source was asked " . json_encode($x) . " for $n elements"); }
            if ($x['key'] !== 0 && $x['key'] !== $n) { $c->fail("{$c->doing}: key() was called {$x['key']} times for $n elements"); }
        }
        if ($after && ($m = $after()) !== null) { $c->fail("{$c->doing}: $m"); }
        // equal constructions serialize alike
        $t = attempt(fn() => serialize($o));
        if ($t[0] === 'ok' && !has_object($exp) && $g->kind !== 'heap' && !str_contains($t[1], '-0')) {
            $serial[$d] = $t[1];
            if (count(array_unique($serial)) > 1 && !c23_zero($exp)) { $c->fail("$short: serializes differently depending on its source: " . show(array_unique($serial))); }
        }
    }
};
/** Does it hold a zero float, or a nested array (whose stored form may differ)? */
function c23_zero($v): bool {
    if (is_float($v)) { return $v == 0.0 || $v !== $v; }
    if (is_array($v)) { foreach ($v as $x) { if (c23_zero($x)) { return true; } if (is_array($x)) { foreach ($x as $y) { if (is_array($y)) { return true; } } } } }
    return false;
}
