<?php
// StrictMinHeap / StrictMaxHeap against a sorted multiset.
final class HeapModel {
    public $o;
    /** @var list<mixed> ascending by ref_compare (heap order: first is the top) */
    public array $m = [];
    public function __construct(public Src $s, public Ctx $c, public bool $min, public Pool $pool) {}
    public function cls(): string { return $this->min ? Teds\StrictMinHeap::class : Teds\StrictMaxHeap::class; }
    public function cmp($a, $b): int { return $this->min ? ref_compare($a, $b) : ref_compare($b, $a); }
    public function addModel($v): void {
        $lo = 0;
        $hi = count($this->m);
        while ($lo < $hi) { $mid = ($lo + $hi) >> 1; if ($this->cmp($this->m[$mid], $v) <= 0) { $lo = $mid + 1; } else { $hi = $mid; } }
        array_splice($this->m, $lo, 0, [[$v]]);
        $this->m[$lo] = $v;
    }
    public function val() { return $this->s->chance(1, 3) ? $this->s->int(40) : $this->pool->any(); }
    public function expectTop(string $what, array $a, bool $remove): void {
        if (!$this->m) { expect_outcome($this->c, $what, [UNDERFLOW], $a); return; }
        if ($a[0] !== 'ok' || canon($a[1]) !== canon($this->m[0])) { $this->c->fail("{$this->cls()}: $what gives " . show_outcome($a) . ', expected ' . show($this->m[0])); }
        if ($remove) { array_shift($this->m); }
    }
    public function check(string $what): void {
        $n = count($this->m);
        $o = $this->o;
        if (count($o) !== $n || $o->count() !== $n || $o->isEmpty() !== ($n === 0) || $o->valid() !== ($n > 0)) { $this->c->fail("after $what: count() " . count($o) . ", expected $n"); }
        $vs = $o->values();
        if (!array_is_list($vs)) { $this->c->fail("values() is not a list"); }
        $a = array_map('canon', $vs);
        $b = array_map('canon', $this->m);
        sort($a, SORT_STRING);
        sort($b, SORT_STRING);
        if ($a !== $b) { $this->c->fail("after $what: holds " . show($vs) . ', expected in some order ' . show($this->m)); }
        if ($n) { $this->expectTop('top()', attempt(fn() => $o->top()), false); }
    }
}
return function (Src $s, Ctx $c): void {
    if ($s->int(2000) === 1999) { large_case($s, $c, [...HEAP_CLASSES]); return; }
    $pool = new Pool($s, $s->pick(['i', 'i', 's', 'if', 'niiffssaaoo', 'nifs', 'ao']), 14);
    $h = new HeapModel($s, $c, $s->int(2) === 0, $pool);
    $cls = $h->cls();
    $c->label($cls);
    $vals = [];
    $n = $s->size($s->chance(1, 12) ? 220 : 40);
    $mode = $s->int(3);
    for ($i = 0; $i < $n; $i++) { $vals[] = $mode === 0 ? $h->val() : ($mode === 1 ? $s->int(30) : ($s->chance(1, 2) ? $i : -$i)); }
    [$src, $d] = make_value_source($s, $vals);
    if ($c->verbose) { $c->say("\$o = new $cls($d of " . show($vals) . ')'); }
    $how = $s->int(4);
    $h->o = match ($how) { 0, 1 => new $cls($src), 2 => $cls::__set_state($vals), 3 => (function () use ($cls, $vals) { $o = new $cls(); foreach ($vals as $v) { $o->add($v); } return $o; })() };
    if (get_class($h->o) !== $cls) { $c->fail("$cls::__set_state() returned a " . get_class($h->o)); }
    foreach ($vals as $v) { $h->addModel($v); }
    if ($s->int(5) === 4) { [$h->o, $d] = rebirth($s, $h->o); $c->say("\$o: $d"); }
    $h->check('construct');
    while ($s->more(20)) {
        $c->ops++;
        $n = count($h->m);
        $o = $h->o;
        if ($n > 2) { $c->nt(); }
        $op = $s->pickw(['add' => 10, 'extract' => 8, 'next' => 4, 'bulk' => 4, 'drain' => 3, 'foreach' => 2, 'contains' => 3, 'clone' => 2, 'clear' => 1, 'ser' => 1, 'current' => 2, 'toArray' => 1, 'churn' => 2]);
        $c->doing = $op;
        switch ($op) {
            case 'add':
                $v = $h->val();
                $c->doing = $c->verbose ? 'add ' . show($v) : '';
                $o->add($v);
                $h->addModel($v);
                break;
            case 'bulk':
                $k = $n > 200 ? 1 : $s->int(30);
                $vs = [];
                for ($i = 0; $i < $k; $i++) { $vs[] = $s->int(50); }
                $c->doing = $c->verbose ? 'add ' . show($vs) : '';
                foreach ($vs as $v) { $o->add($v); $h->addModel($v); }
                break;
            case 'extract':
                $h->expectTop('extract()', attempt(fn() => $o->extract()), true);
                break;
            case 'next':
                if ($n) {
                    $h->expectTop('current()', attempt(fn() => $o->current()), false);
                    $o->next();
                    array_shift($h->m);
                } else { expect_outcome($c, 'next()', [UNDERFLOW], attempt(fn() => $o->next())); }
                break;
            case 'current':
                $o->rewind();
                $h->expectTop('current()', attempt(fn() => $o->current()), false);
                $h->expectTop('key()', attempt(fn() => $o->key()), false);
                break;
            case 'drain':
                for ($k = $s->int($n + 1); $k > 0; $k--) { $h->expectTop('extract()', attempt(fn() => $o->extract()), true); }
                break;
            case 'foreach':
                $k = $s->int($n + 2);
                $i = 0;
                $c->doing = "foreach, leaving after $k";
                foreach ($o as $x => $y) {
                    if ($i === $k) { break; }
                    $h->expectTop('foreach key', ['ok', $x], false);
                    $h->expectTop('foreach value', ['ok', $y], false);
                    if ($s->chance(1, 6)) { $v = $h->val(); $o->add($v); $h->addModel($v); }
                    array_shift($h->m);      // what next() is about to remove
                    $i++;
                }
                break;
            case 'churn':
                for ($k = $s->int(30); $k > 0; $k--) {
                    $v = $s->int(60);
                    $o->add($v);
                    $h->addModel($v);
                    $h->expectTop('extract()', attempt(fn() => $o->extract()), true);
                }
                break;
            case 'contains':
                $v = no_nested_nan($pool->probe());
                $c->doing = $c->verbose ? 'contains ' . show($v) : '';
                expect_outcome($c, 'contains(' . ($c->verbose ? show($v) : '') . ')', ['ok', in_array($v, $h->m, true)], attempt(fn() => $o->contains($v)));
                break;
            case 'clone':
                $h->o = clone $o;
                if ($s->chance(1, 2)) { $o->clear(); } else { $o->add(0); $o->extract(); }
                break;
            case 'clear':
                $o->clear();
                $h->m = [];
                break;
            case 'ser':
                if ($n < 60 && !has_object($h->m)) { $h->o = unserialize(serialize($o)); if (get_class($h->o) !== $cls) { $c->fail('class changed'); } }
                break;
            case 'toArray':
                $c->takeWarnings();
                $a = attempt(fn() => $o->toArray());
                $e = attempt(function () use ($o) { $r = []; foreach ($o->values() as $v) { $r[$v] = $v; } return $r; });
                $c->takeWarnings();
                if ($e[0] !== 'ok') { $e = ['TypeError']; }
                expect_outcome($c, 'toArray()', $e, $a);
                break;
        }
        $c->say($c->doing);
        $h->check($c->doing);
    }
};
