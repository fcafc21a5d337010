<?php
// CachedIterable is lazy, exact, and evaluates its source once.
final class Track {
    public int $pulled = 0;        // elements handed out
    public bool $ended = false;    // was asked for more than it has
    public int $rewinds = 0;
    public array $currents = [];
    public array $keys = [];
    public bool $opened = false;
}
function track_gen(Track $t, array $m, string $end) {
    foreach ($m as [$k, $v]) { $t->pulled++; yield $k => $v; }
    if ($end === 'infinite') { throw new Fail('an endless source was read beyond what any access needs'); }
    $t->ended = true;
    if ($end === 'throw') { throw new UserError('from the source'); }
}
final class TrackIter implements Iterator {
    private int $i = 0;
    public function __construct(private Track $t, private array $m, private string $end) {}
    public function rewind(): void { $this->t->rewinds++; $this->i = 0; }
    public function valid(): bool {
        if ($this->i < count($this->m)) { return true; }
        if ($this->end === 'infinite') { throw new Fail('an endless source was read beyond what any access needs'); }
        $this->t->ended = true;
        if ($this->end === 'throw') { throw new UserError('from the source'); }
        return false;
    }
    public function current(): mixed {
        $this->t->pulled = max($this->t->pulled, $this->i + 1);
        $this->t->currents[$this->i] = ($this->t->currents[$this->i] ?? 0) + 1;
        return $this->m[$this->i][1];
    }
    public function key(): mixed { $this->t->keys[$this->i] = ($this->t->keys[$this->i] ?? 0) + 1; return $this->m[$this->i][0]; }
    public function next(): void { $this->i++; }
}
final class TrackAgg implements IteratorAggregate {
    public function __construct(private Track $t, private array $m, private string $end) {}
    public function getIterator(): Iterator {
        if ($this->t->opened) { throw new Fail('getIterator() of the source was called twice'); }
        $this->t->opened = true;
        return track_gen($this->t, $this->m, $this->end);
    }
}
return function (Src $s, Ctx $c): void {
    if ($s->int(2000) === 1999) { large_case($s, $c, [Teds\CachedIterable::class]); return; }
    $keys = new Pool($s, 'niiffssaaoo', 6);
    $vals = $s->chance(1, 4) ? $keys : new Pool($s, 'niiffssaaoo', 6);
    $m = [];
    for ($n = $s->size($s->chance(1, 8) ? 60 : ($s->chance(1, 60) ? 300 : 12)); $n > 0; $n--) { $m[] = [$s->chance(1, 3) ? count($m) : $keys->any(), $vals->any()]; }
    $n = count($m);
    $end = $s->pickw(['end' => 5, 'throw' => 3, 'infinite' => $n ? 2 : 0]);
    $t = new Track();
    $src = $s->pickw(['gen' => 4, 'iter' => 4, 'agg' => 2, 'nested' => 2, 'array' => $end === 'end' && pairs_fit_array($m) ? 2 : 0, 'class' => $end === 'end' ? 1 : 0]);
    $it = match ($src) {
        'gen' => track_gen($t, $m, $end), 'iter' => new TrackIter($t, $m, $end), 'agg' => new TrackAgg($t, $m, $end),
        'nested' => $n === 0 && $end === 'throw' ? track_gen($t, $m, $end) : new Teds\CachedIterable(track_gen($t, $m, $end)),
        'array' => (function () use ($m) { $r = []; foreach ($m as [$k, $v]) { $r[$k] = $v; } return $r; })(),
        'class' => Teds\ImmutableIterable::fromPairs($m),
    };
    $tracked = $src !== 'array' && $src !== 'class';
    $c->label($src);
    $c->label("source: $end");
    $c->say("source $src, $end, " . ($c->verbose ? show($m) : ''));
    $c->doing = 'construct';
    if ($n === 0 && $end === 'throw' && $src !== 'iter') {
        // a generator that throws before its first yield does so when it is rewound
        expect_outcome($c, 'constructor', [UserError::class], attempt(fn() => new Teds\CachedIterable($it)));
        return;
    }
    $o = new Teds\CachedIterable($it);
    unset($it);
    $need = 0;          // elements the accesses so far need
    $needEnd = false;   // whether they need to know that there is nothing more
    $failed = false;    // whether the source's exception has come through
    $its = [];
    // the outcome of an access that needs element $i (or the end of the sequence)
    $want = function (?int $i, callable $ok) use ($n, $end, &$need, &$needEnd, &$failed) {
        if ($i !== null && $i < $n) { $need = max($need, $i + 1); return ['ok', $ok()]; }
        $need = $n;
        $needEnd = true;
        if ($end === 'end') { return ['ok', $ok()]; }
        if ($failed) { return [RuntimeException::class]; }
        $failed = true;
        return [UserError::class];
    };
    $checkLazy = function (string $what) use ($t, &$need, &$needEnd, $c, $tracked, $n) {
        if (!$tracked) { return; }
        // generators run to their first yield when rewound
        $slack = $need === 0 ? 1 : 0;
        if ($t->pulled > $need + $slack) { $c->fail("after $what the source has produced {$t->pulled} elements, but only $need are needed"); }
        if ($t->ended && !$needEnd && $n > 0) { $c->fail("after $what the source was asked for more than its $n elements, but only $need are needed"); }
        if ($t->rewinds > 1) { $c->fail("the source was rewound {$t->rewinds} times"); }
        foreach ([$t->currents, $t->keys] as $l) { foreach ($l as $i => $k) { if ($k > 1) { $c->fail("element $i was fetched from the source $k times"); } } }
    };
    $checkLazy('construction');
    while ($s->more(20)) {
        $c->ops++;
        if ($n) { $c->nt(); }
        $whole = $end !== 'infinite';
        $op = $s->pickw(['keyAt' => 4, 'valueAt' => 4, 'search' => 5, 'isEmpty' => 2, 'newit' => 5, 'step' => 14, 'rewind' => 2, 'dropit' => 1, 'foreach' => 3, 'count' => $whole ? 1 : 0, 'all' => $whole ? 2 : 0, 'dump' => $whole ? 1 : 0, 'neg' => 1]);
        $c->doing = $op;
        $say = $op;
        switch ($op) {
            case 'keyAt': case 'valueAt':
                $i = $whole ? $s->int($n + 3) : ($n ? $s->int($n) : -1);
                if ($i < 0) { break; }
                $say = "$op($i)";
                $e = $i < $n ? $want($i, fn() => $m[$i][$op === 'keyAt' ? 0 : 1]) : $want(null, fn() => null);
                if ($i >= $n && $e[0] === 'ok') { $e = [OOB]; }
                expect_outcome($c, $say, $e, attempt(fn() => $o->$op($i)));
                break;
            case 'neg':
                $i = $s->pick([-1, -2, PHP_INT_MIN, -4294967296]);
                expect_outcome($c, "keyAt($i)", [OOB], attempt(fn() => $s->int(2) ? $o->keyAt($i) : $o->valueAt($i)));
                break;
            case 'search':
                $f = $s->pick(['indexOfKey', 'indexOfValue', 'containsKey', 'contains', 'containsValue']);
                $w = str_ends_with($f, 'Key') ? 0 : 1;
                $x = no_nested_nan($n && ($s->chance(2, 3) || !$whole) ? fresh_copy($m[$s->int($n)][$w]) : ($w ? $vals : $keys)->probe());
                $i = pair_search($m, $w, $x);
                if ($i === null && !$whole) { break; }
                $say = "$f(" . ($c->verbose ? show($x) : '') . ')';
                $e = $want($i, fn() => $f[0] === 'i' ? $i : $i !== null);
                expect_outcome($c, $say, $e, attempt(fn() => $o->$f($x)));
                break;
            case 'isEmpty':
                if ($n === 0 && !$whole) { break; }
                expect_outcome($c, $say, $want(0, fn() => $n === 0), attempt(fn() => $o->isEmpty()));
                break;
            case 'newit': if (count($its) < 4) { $its[] = [$o->getIterator(), 0]; } break;
            case 'dropit': if ($its) { array_splice($its, $s->int(count($its)), 1); } break;
            case 'rewind': if ($its) { $k = $s->int(count($its)); $its[$k][0]->rewind(); $its[$k][1] = 0; } break;
            case 'step':
                if (!$its) { break; }
                $k = $s->int(count($its));
                [$it, $p] = $its[$k];
                if (!$whole && $p >= $n) { break; }
                $say = "step of iterator $k at $p";
                if ($s->chance(1, 3)) {
                    // reading without asking valid() first
                    $f = $s->pick(['key', 'current']);
                    $e = $want($p, fn() => $p < $n ? $m[$p][$f === 'key' ? 0 : 1] : null);
                    if ($p >= $n && $e[0] === 'ok') { $e = [OOB]; }
                    expect_outcome($c, "$f() of iterator $k at $p", $e, attempt(fn() => $it->$f()));
                }
                $a = attempt(fn() => $it->valid());
                expect_outcome($c, "valid() of iterator $k at $p", $want($p, fn() => $p < $n), $a);
                if ($p < $n) {
                    if (!same($it->key(), $m[$p][0]) || !same($it->current(), $m[$p][1])) { $c->fail("iterator $k at $p gives " . show([$it->key(), $it->current()]) . ', expected ' . show($m[$p])); }
                    if ($s->chance(3, 4)) {
                        $it->next();
                        $its[$k][1]++;
                        $need = max($need, min($n, $p + 2));
                        if ($p + 1 >= $n && $t->ended && $end === 'end') { $needEnd = true; }
                    }
                }
                unset($it);
                break;
            case 'foreach':
                $stop = $whole ? $s->int($n + 2) : ($n ? $s->int($n) : -1);
                if ($stop < 0) { break; }
                $say = "foreach up to $stop";
                $i = 0;
                $e = $stop < $n ? $want($stop, fn() => null) : $want(null, fn() => null);
                $a = attempt(function () use ($o, &$i, $m, $n, $stop, $c) {
                    foreach ($o as $k => $v) {
                        if ($i >= $n || !same($k, $m[$i][0]) || !same($v, $m[$i][1])) { $c->fail("foreach yields " . show([$k, $v]) . " as entry $i"); }
                        if ($i === $stop) { break; }
                        $i++;
                    }
                });
                expect_outcome($c, $say, $e, $a);
                if ($i !== min($n, $stop)) { $c->fail("$say yielded $i entries"); }
                break;
            case 'count': expect_outcome($c, 'count', $want(null, fn() => $n), attempt(fn() => $s->int(2) ? count($o) : $o->count())); break;
            case 'all':
                $f = $s->pick(['keys', 'values', 'toPairs', 'toPairs', 'jsonSerialize', 'toArray']);
                $say = $f;
                $e = $want(null, fn() => match ($f) { 'keys' => array_column($m, 0), 'values' => array_column($m, 1), default => $m });
                if ($f === 'toArray' && $e[0] === 'ok') { $e = ref_to_array($m); }
                expect_outcome($c, $f, $e, attempt(fn() => $o->$f()));
                $c->takeWarnings();
                break;
            case 'dump':
                if ($end !== 'end') { break; }
                $e = $want(null, fn() => $m);
                expect_outcome($c, '(array)', $e, attempt(fn() => (array)$o));
                break;
        }
        $c->say($say);
        $checkLazy($c->verbose ? $say : $op);
    }
    if ($end === 'end') { expect_outcome($c, 'toPairs() at the end', ['ok', $m], attempt(fn() => $o->toPairs())); $need = $n; $needEnd = true; $checkLazy('reading everything'); }
    else { for ($i = 0; $i < $need; $i++) { expect_outcome($c, "valueAt($i) at the end", ['ok', $m[$i][1]], attempt(fn() => $o->valueAt($i))); } }
};
