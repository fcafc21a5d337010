<?php
// Collections own their elements exactly.
final class Tok {
    public static array $live = [];
    public static int $next = 0;
    public int $n;
    public function __construct() { $this->n = self::$next++; self::$live[$this->n] = true; }
    public function __clone() { $this->n = self::$next++; self::$live[$this->n] = true; }
    public function __serialize(): array { return []; }
    public function __unserialize(array $a): void { $this->__clone(); }
    public function __destruct() {
        if (!isset(self::$live[$this->n])) { throw new Fail("object {$this->n} was destroyed twice"); }
        unset(self::$live[$this->n]);
    }
}
final class GNode { public array $out = []; public $own = null; public function __construct(public int $n) {} }

/** Reads of every kind, results dropped. */
function c13_read(Src $s, $o, $probe): void {
    $cls = get_class($o);
    $kind = coll_kind($cls);
    switch ($s->int(12)) {
        case 0: $o->values(); break;
        case 1: attempt(fn() => $o->toArray()); break;
        case 2: coll_pairs($o); break;
        case 3: $x = []; if ($kind === 'heap') { $x[] = $o->contains($probe); } else { foreach ($o as $k => $v) { $x[] = [$k, $v]; if ($s->chance(1, 5)) { break; } } } break;
        case 4: json_encode($o, JSON_PARTIAL_OUTPUT_ON_ERROR); break;
        case 5: var_export($o, true); break;
        case 6: ob_start(); var_dump($o); ob_end_clean(); break;
        case 7: $o->contains($probe); if (method_exists($o, 'containsKey')) { attempt(fn() => $o->containsKey($probe)); } if ($kind === 'map') { isset($o[$probe]); $o->get($probe, 1); } break;
        case 8: serialize($o); break;
        case 9: $x = (array)$o; break;
        case 10: if ($kind !== 'heap') { Teds\unique_values($o); Teds\find($o, fn($x) => $x === $probe); Teds\fold($o, fn($a, $x) => $x, null); Teds\any($o, fn($x) => $x === $probe); Teds\includes_value($o, $probe); } break;
        default: foreach (['first', 'last', 'firstKey', 'lastKey', 'top', 'indexOf'] as $m) { if (method_exists($o, $m)) { try { $m === 'indexOf' ? $o->indexOf($probe) : $o->$m(); } catch (UnderflowException | TypeError $e) {} } } break;
    }
}

/** Mode A: after every operation the reference count of every shared value and the set of living objects are exactly those the contents demand. */
function c13_refcounts(Src $s, Ctx $c): void {
    Tok::$live = [];
    $classes = [...FREE_CLASSES, Teds\ImmutableSortedStringSet::class];
    $cls = $classes[$s->int(count($classes))];
    $kind = coll_kind($cls);
    $c->label($cls);
    $strings = $cls === Teds\ImmutableSortedStringSet::class;
    $g = new CollGen($s, $c, $cls, 'i', 1);
    $g->unser = false;
    // values that only this pool holds besides the collections; contents are all different, so that an occurrence identifies the value
    $P = [];
    for ($i = 0, $n = 2 + $s->int(4); $i < $n; $i++) {
        $P[] = match ($strings ? 1 : $s->int(4)) { 0 => new Obj($i), 1 => vprobe_fresh_string("shared$i"), 2 => array_merge(["arr$i"], [$i]), default => new ObjB($i) };
    }
    $g->vals->vals = $P;
    $g->vals->fixed = true;
    $g->keys->vals = $P;
    $g->keys->fixed = true;
    if (!$strings) {
        $mk = function () use ($s) { return $s->chance(1, 3) ? new Tok() : ($s->chance(1, 8) ? [new Tok(), 1] : null); };
        $g->vals->maker = $mk;
        $g->keys->maker = $mk;
    }
    unset($mk);
    $rc = function () use ($P) {
        $r = [];
        foreach (array_keys($P) as $i) { $r[] = vprobe_refcount($P[$i]); }
        return $r;
    };
    $base = $rc();
    $rc(); // copies of $P inside closures do not count their elements
    $colls = [];
    $its = [];
    $canons = [];
    foreach ($P as $i => $v) { $canons[is_object($v) ? 'o' . spl_object_id($v) : serialize($v)] = $i; }
    unset($v);
    $check = function (string $when) use (&$colls, $P, $canons, $base, $rc, $c, $cls) {
        $want = $base;
        $toks = [];
        $visit = function ($x) use (&$want, &$toks, $canons, &$visit) {
            if ($x instanceof Tok) { $toks[$x->n] = true; return; }
            if (is_array($x) && isset($x[0]) && $x[0] instanceof Tok) { $toks[$x[0]->n] = true; return; }
            if (is_int($x) || $x === null) { return; }
            $k = is_object($x) ? 'o' . spl_object_id($x) : serialize($x);
            if (isset($canons[$k])) { $want[$canons[$k]]++; }
        };
        foreach ($colls as $o) {
            if ($o instanceof Teds\ImmutableSortedStringSet) { continue; }       // keeps the bytes, not the strings
            $set = coll_kind(get_class($o)) !== 'map' && coll_kind(get_class($o)) !== 'pairs';
            foreach (coll_pairs($o) as [$k, $v]) { if (!$set) { $visit($k); } $visit($v); }
        }
        unset($o, $k, $v);
        $got = $rc();
        foreach ($want as $i => $w) {
            if ($got[$i] !== $w) { $c->fail("$cls: after $when the reference count of " . show($P[$i]) . " is {$got[$i]}, but " . ($w - $base[$i]) . ' entries hold it besides ' . $base[$i] . ' variables'); }
        }
        ksort($toks);
        $live = Tok::$live;
        ksort($live);
        if ($live !== $toks) { $c->fail("$cls: after $when the living objects are [" . implode(', ', array_keys($live)) . '], but the collections hold [' . implode(', ', array_keys($toks)) . ']'); }
    };
    $steps = 0;
    while ($s->more(14)) {
        $c->ops++;
        $steps++;
        $op = !$colls ? 'new' : $s->pickw(['mutate' => 12, 'new' => 2, 'clone' => 2, 'drop' => 2, 'read' => 3, 'bad' => 4, 'badcreate' => 2, 'map' => 2, 'iter' => 3, 'func' => 1, 'roundtrip' => 1, 'big' => 1, 'call' => 3, 'operator' => 3]);
        $ci = $colls ? $s->int(count($colls)) : 0;
        $d = $op;
        $c->doing = $op;
        switch ($op) {
            case 'new':
                if (count($colls) >= 3) { $d = 'nothing'; break; }
                [$o, $d] = $g->make(8);
                if ($o instanceof Teds\CachedIterable) { count($o); }
                $colls[] = $o;
                break;
            case 'mutate': if (!coll_immutable($cls)) { $d = $g->mutate($colls[$ci]); } break;
            case 'clone': if (count($colls) < 3 && $cls !== Teds\CachedIterable::class) { $colls[] = clone $colls[$ci]; } break;
            case 'drop': array_splice($colls, $ci, 1); if ($s->chance(1, 2)) { $its = []; } break;
            case 'read': c13_read($s, $colls[$ci], $g->val()); break;
            case 'call': $d = $g->call($colls[$ci]); break;
            case 'operator': $d = $g->operator($colls[$ci]); break;
            case 'bad':
                [$d, $f] = bad_call($s, $g, $colls[$ci]);
                $c->doing = $d;
                attempt($f);
                unset($f);
                $c->takeWarnings();
                break;
            case 'badcreate':
                [$d, $f] = bad_create($s, $g);
                $c->doing = $d;
                attempt($f);
                unset($f);
                break;
            case 'map':
                $m = $s->pick(['map', 'filter']);
                if (!method_exists($cls, $m) || count($colls) >= 3) { break; }
                $r = $m === 'map' ? $colls[$ci]->map(fn($x) => $s->int(2) ? $x : $g->val()) : $colls[$ci]->filter($s->chance(1, 3) ? null : fn($x) => $s->int(2));
                if ($s->chance(1, 2)) { $colls[] = $r; }
                unset($r);
                $d = $m;
                break;
            case 'iter':
                if ($kind === 'heap') { break; }
                if (count($its) < 3) { $its[] = [$colls[$ci]->getIterator(), $colls[$ci]]; }
                [$it] = $its[$s->int(count($its))];
                for ($k = 1 + $s->int(4); $k > 0 && $it->valid(); $k--) { $it->current(); $it->key(); $it->next(); }
                unset($it);
                if ($s->chance(1, 4)) { array_splice($its, $s->int(count($its)), 1); }
                break;
            case 'func':
                $f = $s->pick(['any', 'find', 'fold', 'all']);
                $at = $s->int(6);
                $d = "Teds\\$f() with a throwing callback";
                if ($kind === 'heap') { break; }
                attempt(function () use ($f, &$at, $colls, $ci, $g) {
                    $cb = function ($x, $y = null) use (&$at, $f) { if ($at-- === 0) { throw new UserError('from the callback'); } return $f === 'all'; };
                    return $f === 'fold' ? Teds\fold($colls[$ci], $cb, $g->val()) : ("Teds\\$f")($colls[$ci], $cb);
                });
                break;
            case 'roundtrip':
                if (!$strings && $g->vals->maker) { $x = unserialize(serialize($colls[$ci])); unset($x); }
                break;
            case 'big':
                if (coll_immutable($cls)) { break; }
                for ($k = 0; $k < 20; $k++) { $g->mutate($colls[$ci]); }
                $d = '20 changes';
                break;
        }
        unset($o);
        $GLOBALS['__refs'] = [];
        // an iterator keeps its collection alive: it then still counts
        $all = $colls;
        foreach ($its as [$it, $o]) { if (!in_array($o, $all, true)) { $all[] = $o; } }
        unset($it, $o);
        $keep = $colls;
        $colls = $all;
        unset($all);
        $c->say($d);
        if ($steps > 2) { $c->nt(); }
        $c->doing = "check after $d";
        $check($c->verbose ? $d : $op);
        $colls = $keep;
        unset($keep);
    }
    $colls = $its = [];
    $c->doing = 'check at the end';
    $check('dropping everything');
    $g->vals->maker = $g->keys->maker = null;
}

/** Any history, for repetition. */
function c13_history(Src $s, Ctx $c): void {
    $cls = ALL_CLASSES[$s->int(count(ALL_CLASSES))];
    $c->doing = "history of $cls";
    $c->label($cls);
    $kind = coll_kind($cls);
    $g = new CollGen($s, $c, $cls, 'niifsaao', 5);
    [$o, $d] = $g->make(10);
    $c->say($d);
    $its = [];
    while ($s->more(8)) {
        $c->ops++;
        $op = $s->pickw(['mutate' => 8, 'bad' => 6, 'badcreate' => 6, 'read' => 4, 'clone' => 2, 'iter' => 3, 'hostile' => 5, 'damage' => 4, 'codec' => 3, 'map' => 2, 'func' => 4, 'new' => 2, 'cycle' => 1, 'many' => 1, 'call' => 4, 'operator' => 4]);
        $d = $op;
        $c->doing = $op;
        switch ($op) {
            case 'mutate': if (!coll_immutable($cls)) { $d = $g->mutate($o); } break;
            case 'many': if (!coll_immutable($cls)) { for ($i = 0; $i < 30; $i++) { $g->mutate($o); } } break;
            case 'bad': [$d, $f] = bad_call($s, $g, $o); attempt($f); break;
            case 'badcreate': [$d, $f] = bad_create($s, $g); attempt($f); break;
            case 'read': c13_read($s, $o, $g->val()); break;
            case 'call': $d = $g->call($o); break;
            case 'operator': $d = $g->operator($o); break;
            case 'new': [$o, $d] = $g->make(10); $its = []; break;
            case 'clone': if ($cls !== Teds\CachedIterable::class) { $x = clone $o; if ($s->chance(1, 2)) { $o = $x; } $x = null; } break;
            case 'iter':
                if ($kind === 'heap') { break; }
                $it = $o->getIterator();
                for ($i = $s->int(6); $i > 0 && $it->valid(); $i--) { $it->current(); $it->key(); $it->next(); }
                if ($s->chance(1, 2)) { $its[] = $it; }
                break;
            case 'hostile': $t = hostile_object($s, $g->vals, $cls); $d = "unserialize " . show($t); $x = attempt(fn() => @unserialize($t)); $x = null; break;
            case 'damage': $r = attempt(fn() => serialize($o)); if ($r[0] === 'ok') { $at = strpos($r[1], '{') + 1; $t = substr($r[1], 0, $at) . damage($s, substr($r[1], $at)); $d = 'unserialize ' . show($t);
                // PHP itself leaks the class name when an object's header is damaged
                if (preg_match('/[OCE]:[^:]*:"/i', substr($t, $at))) { $d = 'nothing'; break; }
                $x = attempt(fn() => @unserialize($t)); $x = null; } break;
            case 'codec':
                if (method_exists($cls, 'unserialize')) {
                    $t = $o->serialize();
                    if ($s->chance(2, 3)) { $t = damage($s, $t); }
                    $d = "decode " . show($t);
                    attempt(fn() => $cls::unserialize($t));
                    if ($cls === Teds\BitVector::class) { attempt(fn() => $cls::fromBinaryString($t)); }
                } else {
                    $arr = [];
                    for ($i = $s->int(5); $i > 0; $i--) { $arr[$s->chance(1, 4) ? "k$i" : count($arr)] = $s->chance(1, 2) ? [$g->key(), $g->val()] : $g->val(); }
                    $d = '__set_state ' . show($arr);
                    attempt(fn() => $cls::__set_state($arr));
                }
                break;
            case 'map':
                $m = $s->pick(['map', 'filter']);
                if (!method_exists($cls, $m)) { break; }
                $at = $s->int(12);
                attempt(fn() => $o->$m(function ($x) use (&$at, $s, $g) { if ($at-- === 0) { throw new UserError('from the callback'); } return $s->int(2) ? $x : $g->val(); }));
                break;
            case 'func':
                $f = $s->pick(['any', 'all', 'none', 'find', 'fold', 'unique_values', 'includes_value', 'binary_search', 'stable_compare', 'strict_hash', 'strict_equals', 'array_value_first']);
                $d = "Teds\\$f";
                $at = $s->int(8);
                $arg = $s->int(3);
                $pairs = coll_pairs($o);
                $vals = array_column($pairs, 1);
                if ($kind === 'heap' && $arg === 0) { $arg = 1; }
                $src = match ($arg) { 0 => $o, 1 => $vals, default => failing_source($s, $pairs)[0] };
                attempt(function () use ($f, $src, $vals, &$at, $g, $s) {
                    $cb = function ($x, $y = null) use (&$at, $f, $s) { if ($at-- === 0) { throw new UserError('from the callback'); } 
                        // results that are counted: numeric strings, arrays that are full or have been emptied
                        if ($f === 'binary_search') { return $s->int(3) ? str_repeat('0', 3) . $s->int(2) : sprintf('-%03d', $s->int(2)); }
                        $r = [$x];
                        if ($f !== 'fold' && ($f === 'all') === ($s->int(6) === 0)) { array_pop($r); }
                        return $r;
                    };
                    if ($f === 'binary_search' && $s->int(2)) { foreach ($vals as $k => $v) { unset($vals[$k]); $vals["k$k"] = $v; } }
                    return match ($f) {
                        'fold' => Teds\fold($src, $cb, $g->val()), 'unique_values' => Teds\unique_values($src), 'includes_value' => Teds\includes_value($src, $g->val()),
                        'binary_search' => Teds\binary_search($vals, $g->val(), $s->int(4) ? $cb : null, $s->int(4) === 0), 'stable_compare' => Teds\stable_compare($vals, $g->val()), 'strict_hash' => Teds\strict_hash($vals),
                        'strict_equals' => Teds\strict_equals($vals, $g->val()), 'array_value_first' => [Teds\array_value_first($vals), Teds\array_value_last($vals)],
                        default => ("Teds\\$f")($src, $cb),
                    };
                });
                break;
            case 'cycle':
                if (coll_immutable($cls) || coll_elem_kinds($cls, '') !== '') { break; }
                $x = new GNode(0);
                $x->own = $o;
                match ($kind) { 'seq' => $o->push($x), 'pairs' => $o->push($x, 1), 'map' => $o[$x] = $x, default => $o->add($x) };
                [$o, $d] = $g->make(3);
                $its = [];
                $x = null;
                break;
        }
        if ($c->verbose) { $c->say($d); }
        $f = $r = $it = $src = $pairs = $vals = null;
        $c->takeWarnings();
        Stash::$got = [];
    }
    $GLOBALS['__refs'] = [];
}
/** Mode B: repeating a history does not grow memory. */
function c13_repeat(Src $s, Ctx $c): void {
    $n = 120;
    $draws = [];
    for ($i = 0; $i < $n; $i++) { if ($i % 6 === 0) { $s->mark(); } $draws[] = $s->int(1 << 16); }
    $c->nt();
    $once = function (Ctx $cc) use ($draws) {
        $cc->doing = 'history';
        try { c13_history(Src::replay($draws), $cc); } catch (Discard $e) {}
        gc_collect_cycles();
    };
    if ($c->verbose) { $once($c); }
    $mem = [];
    $quiet = new Ctx();
    $quiet->live = null;
    $GLOBALS['CTX'] = $quiet;
    try {
        $k = 0;
        $grow = 0;
        for ($i = 0; $i < 12; $i++) {
            $quiet->labels = $quiet->lines = $quiet->warnings = [];
            $once($quiet);
            $quiet->warnings = [];
            $m = memory_get_usage();
            $mem[$i] = $m;
            if ($i >= 2) {
                if ($mem[$i] <= $mem[$i - 1]) { break; }
                $grow++;
            }
        }
    } finally { $GLOBALS['CTX'] = $c; }
    foreach ($quiet->labels as $l => $x) { if (str_contains($l, '\\')) { $c->label($l); } }
    $c->ops += 3 * $quiet->ops / max(1, count($mem));
    if ($grow >= 10) { $c->fail('memory grows with every repetition of the history: ' . implode(', ', array_map(fn($i) => $mem[$i] - $mem[$i - 1], range(2, 11))) . ' bytes'); }
}

/** Mode C: random object graphs through collections; the collector reclaims exactly the unreachable part. */
function c13_cycles(Src $s, Ctx $c): void {
    $classes = FREE_CLASSES;
    $n = 2 + $s->int(5);
    $nodes = [];
    $out = [];
    $kinds = [];
    for ($i = 0; $i < $n; $i++) {
        $s->mark();
        $k = $s->int(4) === 0 ? 'object' : $classes[$s->int(count($classes))];
        if ($k === Teds\ImmutableSequence::class || $k === Teds\ImmutableIterable::class || $k === Teds\CachedIterable::class) {
            // contents are fixed at construction: a node it holds can point back
            $hold = new GNode($i);
            $nodes[$i] = $hold;
            $hold->own = match ($k) {
                Teds\ImmutableSequence::class => new $k([$hold, $i]),
                Teds\ImmutableIterable::class => $s->chance(1, 2) ? $k::fromPairs([[$hold, 1]]) : $k::fromPairs([[1, $hold]]),
                default => new $k((function () use ($hold) { yield $hold => 1; yield 2 => $hold; })()),
            };
            if ($k === Teds\CachedIterable::class && $s->chance(1, 2)) { $hold->own->keyAt(0); if ($s->chance(1, 2)) { count($hold->own); } }
            unset($hold);
            $c->label($k);
        } else {
            $nodes[$i] = $k === 'object' ? new GNode($i) : new $k([]);
            $c->label($k);
        }
        $kinds[$i] = $k;
        $out[$i] = [];
    }
    $weak = [];
    foreach ($nodes as $i => $x) { $weak[$i] = WeakReference::create($x); }
    unset($x);
    $weakOwn = [];
    foreach ($nodes as $i => $x) { if ($x instanceof GNode && $x->own) { $weakOwn[$i] = WeakReference::create($x->own); } }
    unset($x);
    $edges = 0;
    for ($e = $s->int(3 * $n + 1); $e > 0; $e--) {
        $s->mark();
        $a = $s->int($n);
        $b = $s->int($n);
        $x = $nodes[$a];
        $wrap = $s->chance(1, 4);
        $v = $wrap ? [1, $nodes[$b]] : $nodes[$b];
        if ($x instanceof GNode && $s->int(4) === 0) {
            // a suspended loop keeps the collection it runs over
            $y = $nodes[$b] instanceof GNode ? $nodes[$b]->own : $nodes[$b];
            if ($y && !$y instanceof Teds\StrictMinHeap && !$y instanceof Teds\StrictMaxHeap) {
                $g = (static function ($w) { foreach ($w->get() as $i) { $i = null; yield 1; } })(WeakReference::create($y));
                if ($g->valid()) { $x->out[] = $g; $out[$a][] = $b; $edges++; $c->say("loop of $a ({$kinds[$a]}) over $b ({$kinds[$b]})"); }
                unset($g);
            }
            unset($x, $v, $y);
            continue;
        }
        if ($wrap && $a === $b) { $wrap = false; $v = $nodes[$b]; }      // keep arrays comparable
        if ($x instanceof GNode) { $x->out[] = $v; }
        else {
            $l = count($x);
            switch (coll_kind(get_class($x))) {
                case 'seq': match ($s->int(3)) { 0 => $x->push($v), 1 => $x->pushFront($v), default => $x->insert($s->int($l + 1), $v) }; break;
                case 'pairs': $s->chance(1, 2) ? $x->push($v, $edges) : $x->push($edges, $v); break;
                case 'map': if ($s->chance(1, 2)) { $x[$v] = $edges; } else { $x["e$edges"] = $v; } break;
                default: $x->add($v); break;
            }
        }
        $out[$a][] = $b;
        $edges++;
        $c->say("edge $a ({$kinds[$a]}) -> $b ({$kinds[$b]})" . ($wrap ? ' in an array' : ''));
        unset($x, $v);
    }
    // some entries go again
    for ($e = $s->int(3); $e > 0; $e--) {
        $a = $s->int($n);
        if ($kinds[$a] === 'object' || $nodes[$a] instanceof GNode) { continue; }
        $nodes[$a]->clear();
        $out[$a] = [];
        $c->say("clear $a");
    }
    $roots = [];
    foreach ($nodes as $i => $x) { if ($s->chance(1, 3)) { $roots[$i] = $x; } }
    unset($x);
    $snap = [];
    $image = function ($x) {
        $p = is_object($x) && !$x instanceof GNode ? coll_pairs($x) : [$x->out, $x->own ? coll_pairs($x->own) : null];
        $f = function ($v) use (&$f) { return is_array($v) ? '[' . implode(',', array_map($f, $v)) . ']' : (is_object($v) ? '#' . spl_object_id($v) : var_export($v, true)); };
        return $f($p);
    };
    $reach = [];
    $todo = array_keys($roots);
    while ($todo) {
        $i = array_pop($todo);
        if (isset($reach[$i])) { continue; }
        $reach[$i] = true;
        foreach ($out[$i] as $j) { $todo[] = $j; }
    }
    foreach ($reach as $i => $_) { if ($kinds[$i] !== Teds\CachedIterable::class) { $snap[$i] = $image($nodes[$i]); } }
    if ($s->chance(1, 4)) { gc_collect_cycles(); foreach ($nodes as $i => $x) { if (!$weak[$i]->get()) { $c->fail("node $i was collected while a variable held it"); } } unset($x); }
    $nodes = [];
    $c->say('roots: ' . implode(', ', array_keys($roots)));
    if ($edges) { $c->nt(); }
    $c->ops++;
    $c->doing = 'gc_collect_cycles';
    gc_collect_cycles();
    foreach ($weak as $i => $w) {
        $alive = $w->get() !== null;
        if ($alive && !isset($reach[$i])) { $c->fail("{$kinds[$i]} (node $i) is unreachable but was not reclaimed"); }
        if (!$alive && isset($reach[$i])) { $c->fail("{$kinds[$i]} (node $i) is reachable but was reclaimed"); }
        if ($alive && isset($snap[$i]) && $image($w->get()) !== $snap[$i]) { $c->fail("{$kinds[$i]} (node $i) changed during garbage collection"); }
    }
    foreach ($weakOwn as $i => $w) { if (($w->get() !== null) !== isset($reach[$i])) { $c->fail("{$kinds[$i]} of node $i: reachable " . var_export(isset($reach[$i]), true) . ', alive ' . var_export($w->get() !== null, true)); } }
    foreach ($reach as $i => $_) { $x = $weak[$i]->get(); if (!$x instanceof GNode) { coll_check($c, $x, 'after garbage collection'); } }
    unset($x, $_);
    $roots = [];
    gc_collect_cycles();
    foreach ($weak as $i => $w) { if ($w->get()) { $c->fail("{$kinds[$i]} (node $i) was not reclaimed after the last variable went"); } }
}

return function (Src $s, Ctx $c): void {
    $m = $s->int(10);
    if ($c->variant === 'asan' && $m >= 7) { $m -= 7; }      // memory_get_usage() needs PHP's own allocator
    if ($m < 5) { $c->label('refcounts'); $GLOBALS['__nocopy'] = true; try { c13_refcounts($s, $c); } finally { $GLOBALS['__nocopy'] = false; } }
    elseif ($m < 7) { $c->label('cycles'); c13_cycles($s, $c); }
    else { $c->label('repeat'); c13_repeat($s, $c); }
};
